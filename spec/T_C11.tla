------------------------------- MODULE T_C11 -------------------------------
(* Compositions of a cell with N sites: all vectors of k counts adding up   *)
(* to N, restricted to lo/den <= c/N <= hi/den per species.                 *)
EXTENDS TraceBase, PhLib
RECURSIVE Comps(_, _)
Comps(N, k) == IF k = 0 THEN (IF N = 0 THEN {<<>>} ELSE {})
               ELSE UNION {{<<c>> \o r : r \in Comps(N - c, k - 1)} : c \in 0..N}
Inside(c, N, w) == LET lo == MinV(w[1], w[2]) hi == MaxV(w[1], w[2]) IN
                   lo * N <= c * w[3] /\ c * w[3] <= hi * N
Allowed(e) == LET N == e.size * e.nb IN
              IF e.restricted THEN {c \in Comps(N, e.k) : \A i \in 1..e.k : Inside(c[i], N, e.win[i])}
              ELSE Comps(N, e.k)
JudgeC11(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET got == Range1(e.out) want == Allowed(e) IN
         Fails([each_once |-> Cardinality(got) = Len(e.out),
                only_allowed |-> got \subseteq want,
                none_missing |-> want \subseteq got])
=============================================================================
