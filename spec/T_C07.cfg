SPECIFICATION TSpec
CONSTANT Judge <- JudgeC07
CHECK_DEADLOCK FALSE
