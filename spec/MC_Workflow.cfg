SPECIFICATION WSpec
CONSTANTS Depth = 30 Small = TRUE
INVARIANTS FailureLeavesAlone InputKept TablesKept RequestKept OutBelongs OthersKept Repeatable NothingVanishes Progress
VIEW StepView
CHECK_DEADLOCK FALSE
