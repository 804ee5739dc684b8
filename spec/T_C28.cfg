SPECIFICATION TSpec
CONSTANT Judge <- JudgeC28
CHECK_DEADLOCK FALSE
