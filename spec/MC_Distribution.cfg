SPECIFICATION DSpec
CONSTANTS NE = 3 MaxLim = 4 Rounds = 2
INVARIANTS NeverTooMany WithinLimits ExactWhenDone EverythingWhenAll Abundant
PROPERTIES Ends Monotone
CHECK_DEADLOCK FALSE
