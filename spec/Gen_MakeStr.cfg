SPECIFICATION MSpec
CONSTANTS N = 4 K = 3 Depth = 3
INVARIANTS Emit OneFilePerName
CHECK_DEADLOCK FALSE
