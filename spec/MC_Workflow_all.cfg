SPECIFICATION WSpec
CONSTANTS Depth = 1 Small = FALSE
INVARIANTS FailureLeavesAlone InputKept TablesKept RequestKept OutBelongs OthersKept Repeatable NothingVanishes Progress
CHECK_DEADLOCK FALSE
