SPECIFICATION XSpec
CONSTANT Judge <- JudgeC29
CHECK_DEADLOCK FALSE
