SPECIFICATION TSpec
CONSTANT Judge <- JudgeC23
CHECK_DEADLOCK FALSE
