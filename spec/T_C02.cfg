SPECIFICATION TSpec
CONSTANT Judge <- JudgePrim
CHECK_DEADLOCK FALSE
