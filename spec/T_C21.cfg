SPECIFICATION TSpec
CONSTANT Judge <- JudgeC21
CHECK_DEADLOCK FALSE
