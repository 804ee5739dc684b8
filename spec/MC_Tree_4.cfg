SPECIFICATION TSpec
CONSTANTS N = 4
 D = 1
 MaxColours = 3
INVARIANTS PathOK Palette Inequivalent Complete CountedOnce Burnside Bounded
CHECK_DEADLOCK FALSE
