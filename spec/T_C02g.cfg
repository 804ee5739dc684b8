SPECIFICATION TSpec
CONSTANT Judge <- JudgeGuess
CHECK_DEADLOCK FALSE
