INIT Init
NEXT Next
CONSTANT MaxN = 12
INVARIANTS CountOK DistinctOK BoxOK RedOK HnfOK PGOK FccOK
CHECK_DEADLOCK FALSE
