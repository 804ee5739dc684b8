SPECIFICATION TSpec
CONSTANT Judge <- JudgeC27
CHECK_DEADLOCK FALSE
