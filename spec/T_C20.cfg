SPECIFICATION TSpec
CONSTANT Judge <- JudgeC20
CHECK_DEADLOCK FALSE
