SPECIFICATION TSpec
CONSTANT Judge <- JudgeC26
CHECK_DEADLOCK FALSE
