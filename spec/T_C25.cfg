SPECIFICATION TSpec
CONSTANT Judge <- JudgeC25
CHECK_DEADLOCK FALSE
