------------------------------- MODULE T_C12 -------------------------------
(* A random sample: e.got structures out of e.total classes, e.wanted       *)
(* requested.  e.total is the harness's count, confirmed here by Burnside's *)
(* lemma modulo three primes.                                               *)
EXTENDS TraceBase, Coloring
P3 == <<32749, 32719, 32717>>
TotalOK(e) == LET cls == TLCEval(Classes(e.G)) IN
    \A k \in 1..3 : SumFix(cls, e.cols, e.concs, P3[k]) = ((e.totalr[k]) * Len(e.G)) % P3[k]
\* a sample may come back with the colours numbered in the order of the colour list instead
\* of with the species (see known_findings.json); judge the rest under that reading too
AsListed(e, xs) == [k \in DOMAIN xs |-> [j \in DOMAIN xs[k] |->
                       LET c == Species(xs[k][j]) IN
                       IF c \in DOMAIN e.cols THEN 7 * e.cols[c][1] + (xs[k][j] % 7) ELSE 0]]
JudgeC12(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET pal(xs) == \A k \in DOMAIN xs : Len(xs[k]) = e.n /\ HasPalette(xs[k], e.cols, e.concs) /\ DirsOK(xs[k], e.dim)
             good == pal(e.got)
             xs == IF good THEN e.got ELSE TLCEval(AsListed(e, e.got))
         IN (IF good THEN {} ELSE {"palette"}) \cup
            (IF ~good /\ ~pal(xs) THEN {"not_even_relabelled"}
             ELSE LET T == TLCEval({e.G[k] : k \in 1..e.nt})
                      orbs == TLCEval([k \in DOMAIN xs |-> Orbit(e.G, xs[k])])
                  IN Fails([harness_total |-> TotalOK(e),
                            number |-> IF e.supers THEN Len(xs) = MinV(e.wanted, e.total) ELSE Len(xs) <= e.wanted,
                            \* no two in one class: the classes do not meet
                            distinct |-> SumOver(DOMAIN xs, LAMBDA k : Cardinality(orbs[k])) = Cardinality(UNION {orbs[k] : k \in DOMAIN xs}),
                            no_superperiodic |-> e.supers \/ \A k \in DOMAIN xs : ~Superperiodic(T, xs[k])]))
=============================================================================
