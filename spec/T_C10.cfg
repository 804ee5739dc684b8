SPECIFICATION TSpec
CONSTANT Judge <- JudgeC10
CHECK_DEADLOCK FALSE
