SPECIFICATION MSpec
INVARIANTS OrdinaryUnlessQuiet ErrorsByDefault Monotone DetailNeedsVerbosity EverythingWhenAll
CHECK_DEADLOCK FALSE
