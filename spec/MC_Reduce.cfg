SPECIFICATION RSpec
CONSTANTS E = 1
 NGrams = 1
INVARIANTS Same Minkowski Shortest Rounds Stuck
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
