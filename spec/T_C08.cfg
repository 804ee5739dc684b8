SPECIFICATION TSpec
CONSTANT Judge <- JudgeC08
CHECK_DEADLOCK FALSE
