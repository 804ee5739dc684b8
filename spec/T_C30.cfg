SPECIFICATION TSpec
CONSTANT Judge <- JudgeC30
CHECK_DEADLOCK FALSE
