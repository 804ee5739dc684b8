CONSTANT Judge <- JudgeC24
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
