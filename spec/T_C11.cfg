SPECIFICATION TSpec
CONSTANT Judge <- JudgeC11
CHECK_DEADLOCK FALSE
