------------------------------- MODULE T_C08 -------------------------------
(* The permutation group of a supercell, against the crystal's own symmetry.*)
EXTENDS TraceBase, Lattice
JudgeC08(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET H == Full(e.h)  n == Det(H)
             sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q))
             want == TLCEval(SuperPerms(sg, H, e.L, e.S, e.D, e.q))
             trans == TLCEval(TransPerms(e.L, e.S, e.D, e.q))
             got == TLCEval(Range1(e.perms))
             mult == {Cardinality({k \in DOMAIN e.perms : e.perms[k] = p}) : p \in got}
         IN IF ~SmithFor(e.L, e.S, e.h) THEN {"smith"}
            ELSE Fails([none_missing |-> want \subseteq got,
                        none_invented |-> got \subseteq want,
                        listed_equally_often |-> Cardinality(mult) = 1,
                        translations_first |-> Len(e.perms) >= n /\ {e.perms[k] : k \in 1..n} = trans])
=============================================================================
