SPECIFICATION TSpec
CONSTANT Judge <- JudgeC06
CHECK_DEADLOCK FALSE
