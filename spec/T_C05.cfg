SPECIFICATION TSpec
CONSTANT Judge <- JudgeC05
CHECK_DEADLOCK FALSE
