SPECIFICATION CSpec
CONSTANTS Depth = 12 Draws = 2 Fams = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
