SPECIFICATION CSpec
CONSTANTS N = 4
 D = 2
INVARIANTS Inside Group Lagrange Short
CHECK_DEADLOCK FALSE
