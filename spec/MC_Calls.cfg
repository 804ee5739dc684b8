SPECIFICATION CSpec
CONSTANTS Depth = 6 Draws = 3 Fams = 3
INVARIANTS Stable Seeded NoEcho
CHECK_DEADLOCK FALSE
