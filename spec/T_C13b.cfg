SPECIFICATION TSpec
CONSTANT Judge <- JudgeBig
CHECK_DEADLOCK FALSE
