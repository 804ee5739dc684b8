SPECIFICATION SSpec
CONSTANTS E = 0
 MaxDet = 48
 MaxN = 36
INVARIANTS Product Transforms Volume Cleared Smith Invariants Stuck Few
CHECK_DEADLOCK FALSE
