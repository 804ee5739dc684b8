SPECIFICATION WSpec
CONSTANTS Depth = 5 Small = FALSE
INVARIANTS Emit FailureLeavesAlone TablesKept RequestKept
CHECK_DEADLOCK FALSE
