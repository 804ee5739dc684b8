SPECIFICATION TSpec
CONSTANT Judge <- JudgeC12
CHECK_DEADLOCK FALSE
