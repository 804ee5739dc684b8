SPECIFICATION MSpec
CONSTANTS N = 3 K = 2 Depth = 2
INVARIANTS OneFilePerName OnlyExisting NothingLost RefusedLeavesAlone SelectedIsThere NamedAfterNumber OthersKept
CHECK_DEADLOCK FALSE
