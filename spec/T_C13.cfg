SPECIFICATION TSpec
CONSTANT Judge <- JudgeC13
CHECK_DEADLOCK FALSE
