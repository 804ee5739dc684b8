------------------------------- MODULE T_C13 -------------------------------
(* A distribution: e.res is a sequence of [size, hnf, conc, num] (<<>> where *)
(* the distribution does not distinguish), e.n the number asked for, -1 for *)
(* all; e.again the same request repeated.                                  *)
EXTENDS TraceBase, Tables
KeyR(x) == <<x.size, x.hnf, x.conc>>
JudgeC13(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET E == Entries4(e)
             g == Sum4(E)
             all == e.n = -1 \/ e.n >= g
             want == IF all THEN g ELSE e.n
             K == KeysOf(e.ft, E)
             lim == [k \in K |-> LimitOf(e.ft, E, k)]
             R == Range1(e.res)
             Given(k) == SumSeq([i \in DOMAIN e.res |-> IF KeyR(e.res[i]) = k THEN e.res[i].num ELSE 0])
             floor == [k \in K |-> IF lim[k] = 0 THEN 0 ELSE (lim[k] * want - 1) \div g]
             \* entries at least as abundant as k, all served their share rounded up, still fit
             ahead(k) == SumOver({j \in K : lim[j] >= lim[k]}, LAMBDA j : (lim[j] * want) \div g + 1)
         IN Fails([
        total |-> SumSeq([i \in DOMAIN e.res |-> e.res[i].num]) = want,
        known_keys |-> \A x \in R : KeyR(x) \in K,
        once |-> \A i, j \in DOMAIN e.res : KeyR(e.res[i]) = KeyR(e.res[j]) => i = j,
        not_too_many |-> \A x \in R : KeyR(x) \in K => x.num <= lim[KeyR(x)] /\ x.num >= 0,
        everything |-> all => \A k \in K : Given(k) = lim[k],
        abundant |-> \A k \in K : (g > 0 /\ ahead(k) <= want) => Given(k) >= floor[k],
        repeatable |-> e.seeded => Range1(e.again) = R])
\* numbers of any size, as digits; shares only for requests that are small
RECURSIVE BSumSeq(_)
BSumSeq(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSumSeq(Tail(s)))
Trillion == <<0, 0, 0, 0, 1>>
BOk(a) == \A i \in DOMAIN a : a[i] \in 0..999
JudgeBig(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF \E i \in DOMAIN e.res : ~BOk(e.res[i].num) THEN {"not_too_many"}
    ELSE LET E == Entries4(e)
             g == BSum4(E)
             all == e.all \/ BLeq(g, e.n)
             want == IF all THEN g ELSE e.n
             K == KeysOf(e.ft, E)
             lim == TLCEval([k \in K |-> BLimit(e.ft, E, k)])
             R == Range1(e.res)
             Given(k) == BSumSeq([i \in DOMAIN e.res |-> IF KeyR(e.res[i]) = k THEN e.res[i].num ELSE <<>>])
             \* want * lim[k] / g rounded up, for k and everything at least as abundant, still fits
             \* (abundances that differ by less than one part in 10^12 count as equal: weights are floating point)
             above(k) == {j \in K : BLeq(BMul(Trillion, lim[k]), BAdd(BMul(Trillion, lim[j]), lim[j]))}
             fits(k) == BLeq(BAdd(BMul(want, FoldSet(LAMBDA j, a : BAdd(lim[j], a), <<>>, above(k))), BMul(g, BOf(Cardinality(above(k))))), BMul(want, g))
         IN Fails([
        total |-> BSumSeq([i \in DOMAIN e.res |-> e.res[i].num]) = want,
        known_keys |-> \A x \in R : KeyR(x) \in K,
        once |-> \A i, j \in DOMAIN e.res : KeyR(e.res[i]) = KeyR(e.res[j]) => i = j,
        not_too_many |-> \A x \in R : KeyR(x) \in K => BLeq(x.num, lim[KeyR(x)]),
        everything |-> all => \A k \in K : Given(k) = lim[k],
        abundant |-> Len(e.n) <= 2 => \A k \in K : fits(k) => BLeq(BMul(want, lim[k]), BMul(BAdd(Given(k), <<1>>), g)),
        repeatable |-> e.seeded => Range1(e.again) = R])
=============================================================================
