SPECIFICATION TSpec
CONSTANT Judge <- JudgeC22
CHECK_DEADLOCK FALSE
