SPECIFICATION SSpec
CONSTANTS E = 1
 MaxDet = 4
 MaxN = 12
INVARIANTS Product Transforms Volume Cleared Smith Invariants Stuck Few
PROPERTY Ends
CHECK_DEADLOCK FALSE
