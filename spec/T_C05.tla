------------------------------- MODULE T_C05 -------------------------------
EXTENDS TraceBase, Lattice
JudgeC05(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET want == HNFs(e.n) got == Range1(e.hnfs) IN
         Fails([zero_upper |-> e.upper_zero,
                listed_once |-> Len(e.hnfs) = Cardinality(got),
                only_valid |-> got \subseteq want,
                complete |-> want \subseteq got])
=============================================================================
