SPECIFICATION TSpec
CONSTANTS N = 5
 D = 1
 MaxColours = 3
INVARIANTS PathOK Palette Inequivalent Complete CountedOnce Burnside Bounded
CHECK_DEADLOCK FALSE
