SPECIFICATION TSpec
CONSTANT Judge <- JudgeC19
CHECK_DEADLOCK FALSE
