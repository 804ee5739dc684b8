SPECIFICATION TSpec
CONSTANT Judge <- JudgeC03
CHECK_DEADLOCK FALSE
