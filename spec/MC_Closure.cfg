SPECIFICATION CSpec
CONSTANTS N = 3
 D = 2
INVARIANTS Inside Group Lagrange Short
CHECK_DEADLOCK FALSE
