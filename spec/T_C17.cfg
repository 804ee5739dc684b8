SPECIFICATION TSpec
CONSTANT Judge <- JudgeC17
CHECK_DEADLOCK FALSE
