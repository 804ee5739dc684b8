------------------------------- MODULE T_C09 -------------------------------
(* Site permutations paired with permutations of the six directions.        *)
EXTENDS TraceBase, Lattice
Opp(a) == IF a % 2 = 0 THEN a + 1 ELSE a - 1
JudgeC09(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET H == Full(e.h)  n == Det(H)
             sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q))
             want == TLCEval(SuperPairs(sg, H, e.L, e.S, e.D, e.q, e.A))
             gotseq == TLCEval([k \in 1..Len(e.perms) |-> <<e.perms[k], e.arrows[k]>>])
             got == TLCEval(Range1(gotseq))
             mult == IF Cardinality(got) = Len(gotseq) THEN {1}
                     ELSE {Cardinality({k \in DOMAIN gotseq : gotseq[k] = p}) : p \in got}
             aok == Len(e.arrows) = Len(e.perms) /\ \A k \in DOMAIN e.arrows : Range1(e.arrows[k]) = 0..5 /\ Len(e.arrows[k]) = 6
         IN IF ~SmithFor(e.L, e.S, e.h) THEN {"smith"}
            ELSE IF ~aok THEN {"direction_permutation"}
            ELSE Fails([pairs_missing |-> want \subseteq got,
                        pairs_invented |-> got \subseteq want,
                        listed_equally_often |-> Cardinality(mult) = 1,
                        translations_fix_directions |-> \A k \in 1..n : e.arrows[k] = <<0,1,2,3,4,5>>,
                        opposites |-> \A k \in DOMAIN e.arrows : \A a \in 0..5 :
                            e.arrows[k][Opp(a)+1] = Opp(e.arrows[k][a+1])])
=============================================================================
