SPECIFICATION TSpec
CONSTANT Judge <- JudgeC15
CHECK_DEADLOCK FALSE
