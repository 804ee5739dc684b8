------------------------------ MODULE T_Color ------------------------------
(* Recorded enumerations against the definition of "one of every class".    *)
(* e.G group, e.cols/e.concs palette, e.dim number of directions,           *)
(* e.full survivors with superperiodic structures kept, e.prim without,     *)
(* e.nt number of leading group elements that are translations.             *)
EXTENDS TraceBase, Coloring
Trans(e) == {e.G[k] : k \in 1..e.nt}
Valid(e, xs) == \A k \in DOMAIN xs : Len(xs[k]) = e.n /\ HasPalette(xs[k], e.cols, e.concs) /\ DirsOK(xs[k], e.dim)
Orbs(e, xs) == TLCEval([k \in DOMAIN xs |-> Orbit(e.G, xs[k])])
Total(orbs) == SumSeq([k \in DOMAIN orbs |-> Cardinality(orbs[k])])
\* full enumeration
FullClauses(e) ==
    LET orbs == Orbs(e, e.full) tot == Total(orbs)
        un == Cardinality(UNION Range1(orbs))
    IN [palette |-> Valid(e, e.full),
        no_two_equivalent |-> tot = un,
        none_missing |-> un = NumColourings(e.cols, e.concs, e.dim)]
JudgeFull(e) == IF e.st # "ok" THEN {"status"}
                ELSE IF ~Valid(e, e.full) THEN {"palette"}
                ELSE Fails(FullClauses(e)) \cup
                     (IF "polya" \in DOMAIN e THEN Fails([polya_agrees |-> e.polya = Len(e.full)]) ELSE {})
JudgePrim(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF ~Valid(e, e.full) \/ ~Valid(e, e.prim) THEN {"palette"}
    ELSE LET T == TLCEval(Trans(e))
             aper == {k \in DOMAIN e.full : ~Superperiodic(T, e.full[k])}
             orbs == Orbs(e, e.prim)
             wanted == UNION {Orbit(e.G, e.full[k]) : k \in aper}
         IN Fails(FullClauses(e)) \cup
            Fails([none_superperiodic |-> \A k \in DOMAIN e.prim : ~Superperiodic(T, e.prim[k]),
                   prim_distinct |-> Total(orbs) = Cardinality(UNION Range1(orbs)),
                   prim_complete |-> \A k \in aper : e.full[k] \in UNION Range1(orbs),
                   prim_only |-> UNION Range1(orbs) \subseteq wanted,
                   same_number |-> Len(e.prim) = Cardinality(aper)])
\* e.guess: what the search by guessing returns without superperiodic structures when asked for e.wanted
JudgeGuess(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF ~Valid(e, e.full) \/ ~Valid(e, e.guess) THEN {"palette"}
    ELSE LET T == TLCEval(Trans(e))
             aper == {k \in DOMAIN e.full : ~Superperiodic(T, e.full[k])}
             orbs == Orbs(e, e.guess)
         IN Fails(FullClauses(e)) \cup
            Fails([none_superperiodic |-> \A k \in DOMAIN e.guess : ~Superperiodic(T, e.guess[k]),
                   prim_distinct |-> Total(orbs) = Cardinality(UNION Range1(orbs)),
                   number |-> Len(e.guess) = IF e.wanted < Cardinality(aper) THEN e.wanted ELSE Cardinality(aper)])
=============================================================================
