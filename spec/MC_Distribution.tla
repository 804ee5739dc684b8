-------------------------- MODULE MC_Distribution --------------------------
(* Handing out structures in rounds, one entry at a time in order of        *)
(* abundance, each time a share rounded up or down at random, clipped to    *)
(* what is left of the entry and of the request; then a last round that     *)
(* fills up from the most abundant entries.  All limits, all requests, all  *)
(* outcomes of the rounding.                                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS NE, MaxLim, Rounds
VARIABLES lim, n, given, round, pos, start
dv == <<lim, n, given, round, pos, start>>
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Total(f) == SumTo(f, NE)
Min2(a, b) == IF a < b THEN a ELSE b
DInit == /\ lim \in [1..NE -> 0..MaxLim] /\ \A i \in 1..NE-1 : lim[i] >= lim[i+1]
         /\ n \in 0..(NE * MaxLim) /\ n <= Total(lim)
         /\ given = [i \in 1..NE |-> 0] /\ round = 1 /\ pos = 1 /\ start = 0
g == Total(lim)
Left == n - Total(given)
\* the share of entry i of what was missing at the start of the round
Share(i) == {x \in 0..n : \/ x * g <= lim[i] * (n - start) /\ (x + 1) * g > lim[i] * (n - start)
                          \/ x * g > lim[i] * (n - start) /\ (x - 1) * g < lim[i] * (n - start)}
Give(i, x) == given' = [given EXCEPT ![i] = @ + Min2(x, Min2(lim[i] - @, Left))]
Advance == IF pos = NE THEN pos' = 1 /\ round' = round + 1 /\ start' = Total(given')
           ELSE pos' = pos + 1 /\ UNCHANGED <<round, start>>
Random == /\ round <= Rounds /\ Left > 0
          /\ \E x \in Share(pos) : Give(pos, x)
          /\ Advance /\ UNCHANGED <<lim, n>>
TopUp == /\ round = Rounds + 1 /\ Left > 0 /\ Give(pos, lim[pos]) /\ Advance /\ UNCHANGED <<lim, n>>
DNext == Random \/ TopUp
DSpec == DInit /\ [][DNext]_dv /\ WF_dv(DNext)
NeverTooMany == Total(given) <= n
WithinLimits == \A i \in 1..NE : given[i] <= lim[i] /\ given[i] >= 0
Done == ~ENABLED DNext
ExactWhenDone == Done => Total(given) = n
EverythingWhenAll == (Done /\ n = g) => given = lim
Ends == <>[](Total(given) = n)
\* while its share and those of all more abundant ones fit, an entry is served its share
Abundant == (Done /\ g > 0) => \A i \in 1..NE :
    (SumTo([j \in 1..NE |-> (lim[j] * n) \div g + 1], i) <= n) => given[i] >= (lim[i] * n) \div g
Monotone == [][\A i \in 1..NE : given'[i] >= given[i]]_dv
=============================================================================
