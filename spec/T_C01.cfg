SPECIFICATION TSpec
CONSTANT Judge <- JudgeFull
CHECK_DEADLOCK FALSE
