SPECIFICATION TSpec
CONSTANT Judge <- JudgeC18
CHECK_DEADLOCK FALSE
