SPECIFICATION DSpec
CONSTANTS NE = 3 MaxLim = 6 Rounds = 4
INVARIANTS NeverTooMany WithinLimits ExactWhenDone EverythingWhenAll Abundant
PROPERTIES Ends Monotone
CHECK_DEADLOCK FALSE
