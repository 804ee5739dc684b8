SPECIFICATION TSpec
CONSTANTS N = 3
 D = 2
 MaxColours = 3
INVARIANTS PathOK Palette Inequivalent Complete CountedOnce Burnside Bounded
CHECK_DEADLOCK FALSE
