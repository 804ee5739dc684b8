SPECIFICATION TSpec
CONSTANT Judge <- JudgeC14
CHECK_DEADLOCK FALSE
