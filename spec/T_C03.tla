------------------------------- MODULE T_C03 -------------------------------
(* The predicted number of classes.  Small cases by listing the orbits of   *)
(* every colouring; large ones by Burnside's lemma modulo eight primes,     *)
(* e.predr[k] being the prediction modulo the k-th prime.                   *)
EXTENDS TraceBase, Coloring
P8 == <<32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653>>
AllColourings(e) ==
    \* every sequence over the colours with the right counts
    LET syms == UNION {IF e.cols[i][2] = 1 THEN {7 * e.cols[i][1] + d : d \in 1..e.dim} ELSE {7 * e.cols[i][1]} : i \in DOMAIN e.cols}
    IN {x \in [1..e.n -> syms] : HasPalette(x, e.cols, e.concs)}
RECURSIVE CountOrbits(_, _)
CountOrbits(G, todo) == IF todo = {} THEN 0
                        ELSE LET x == CHOOSE x \in todo : TRUE IN 1 + CountOrbits(G, todo \ Orbit(G, x))
BurnsideOK(e) == LET cls == TLCEval(Classes(e.G)) IN
    \A k \in DOMAIN P8 : SumFix(cls, e.cols, e.concs, P8[k]) = (e.predr[k] * Len(e.G)) % P8[k]
JudgeC03(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE Fails([burnside |-> BurnsideOK(e),
                order_independent |-> e.again = e.predr,
                orbits |-> e.tiny => e.pred = CountOrbits(e.G, AllColourings(e))])
=============================================================================
