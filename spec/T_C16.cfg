SPECIFICATION TSpec
CONSTANT Judge <- JudgeC16
CHECK_DEADLOCK FALSE
