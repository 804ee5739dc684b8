SPECIFICATION TSpec
CONSTANT Judge <- JudgeC09
CHECK_DEADLOCK FALSE
