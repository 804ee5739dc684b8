------------------------------- MODULE T_C24 -------------------------------
(* The numbering of colour arrangements (one number per colour level, each  *)
(* numbering the choices of the still empty sites), of displacement         *)
(* patterns, and the counting functions behind them.                        *)
(* kind "all":    every number of one composition was decoded: e.arr[k]     *)
(*                (the arrangement) and e.back[k] (re-encoded level by      *)
(*                level), e.branch[k] the number it came from;              *)
(* kind "some":   large sites, numbers given modulo the primes P;           *)
(* kind "dirs":   every number of displacement patterns; "dirssome";        *)
(* kind "counts": factorial, binomial, multinomial modulo the primes P.     *)
EXTENDS TraceBase, PhLib
P == <<32749, 32719, 32717, 32713>>
NP == 4
MaxN == 130
\* Pascal's triangle modulo P[j]
RECURSIVE Rows(_, _, _)
Rows(p, n, acc) == IF n > MaxN THEN acc
    ELSE LET prev == acc[n]      \* row n-1, indices 1..n
             row == TLCEval([k \in 1..n+1 |-> ((IF k <= n THEN prev[k] ELSE 0) + (IF k > 1 THEN prev[k-1] ELSE 0)) % p])
         IN Rows(p, n + 1, Append(acc, row))
Pascal1 == Rows(P[1], 1, <<<<1>>>>)
Pascal2 == Rows(P[2], 1, <<<<1>>>>)
Pascal3 == Rows(P[3], 1, <<<<1>>>>)
Pascal4 == Rows(P[4], 1, <<<<1>>>>)
Tri(j) == CASE j = 1 -> Pascal1 [] j = 2 -> Pascal2 [] j = 3 -> Pascal3 [] OTHER -> Pascal4
BinomP(n, k, j) == IF k < 0 \/ k > n THEN 0 ELSE Tri(j)[n + 1][k + 1]
RECURSIVE MultP(_, _)
MultP(cs, j) == IF Len(cs) = 0 THEN 1 ELSE (BinomP(SumSeq(cs), Head(cs), j) * MultP(Tail(cs), j)) % P[j]
RECURSIVE FactP(_, _)
FactP(n, j) == IF n = 0 THEN 1 ELSE (n * FactP(n - 1, j)) % P[j]
RECURSIVE PowP(_, _, _)
PowP(b, e, j) == IF e = 0 THEN 1 ELSE (b * PowP(b, e - 1, j)) % P[j]

\* what level i may range over: the sites left after the first i-1 colours
Left(concs, i) == SumSeq(SubSeq(concs, i, Len(concs)))
RadixOK(e) == Len(e.radix) = Len(e.concs) /\
              \A i \in DOMAIN e.concs : \A j \in 1..NP : e.radix[i][j] = BinomP(Left(e.concs, i), e.concs[i], j)
Coloured(x, concs) == Len(x) = SumSeq(concs) /\ \A i \in DOMAIN concs : Count(x, i) = concs[i]
\* colour i as seen by a later encoding: the sites not taken by earlier colours
LevelBits(x, i) == LET s == SelectSeq(x, LAMBDA c : c >= i) IN [k \in DOMAIN s |-> IF s[k] = i THEN 1 ELSE 0]
JudgeAll(e) ==
    Fails([range |-> RadixOK(e),
           every_number |-> Len(e.arr) = Multinom(e.concs),
           right_counts |-> \A k \in DOMAIN e.arr : Coloured(e.arr[k], e.concs),
           one_to_one |-> Cardinality(Range1(e.arr)) = Len(e.arr),
           round_trip |-> \A k \in DOMAIN e.arr : e.back[k] = e.branch[k],
           levels |-> \A k \in DOMAIN e.arr : \A i \in DOMAIN e.concs : e.bits[k][i] = LevelBits(e.arr[k], i)])
JudgeSome(e) ==
    Fails([range |-> RadixOK(e),
           right_counts |-> \A k \in DOMAIN e.arr : Coloured(e.arr[k], e.concs),
           one_to_one |-> Cardinality(Range1(e.arr)) = Cardinality(Range1(e.branch)),
           round_trip |-> e.exact /\ \A k \in DOMAIN e.arr : e.back[k] = e.branch[k]])
JudgeDirs(e) ==
    Fails([every_number |-> Len(e.arr) = Pow(e.dim, e.n),
           directions |-> \A k \in DOMAIN e.arr : Len(e.arr[k]) = e.n /\ \A i \in 1..e.n : e.arr[k][i] \in 0..e.dim-1,
           one_to_one |-> Cardinality(Range1(e.arr)) = Len(e.arr),
           round_trip |-> \A k \in DOMAIN e.arr : e.back[k] = k - 1])
JudgeDirsSome(e) ==
    Fails([directions |-> \A k \in DOMAIN e.arr : Len(e.arr[k]) = e.n /\ \A i \in 1..e.n : e.arr[k][i] \in 0..e.dim-1,
           last |-> e.arr[Len(e.arr)] = [i \in 1..e.n |-> e.dim - 1],
           round_trip |-> e.exact])
JudgeCounts(e) ==
    Fails([factorial |-> \A i \in DOMAIN e.fact : \A j \in 1..NP : e.fact[i][2][j] = FactP(e.fact[i][1], j),
           binomial |-> \A i \in DOMAIN e.bin : \A j \in 1..NP : e.bin[i][3][j] = BinomP(e.bin[i][1], e.bin[i][2], j),
           multinomial |-> \A i \in DOMAIN e.mul : \A j \in 1..NP : e.mul[i][2][j] = MultP(e.mul[i][1], j),
           integers |-> e.whole])
JudgeC24(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE CASE e.kind = "all" -> JudgeAll(e) [] e.kind = "some" -> JudgeSome(e)
           [] e.kind = "dirs" -> JudgeDirs(e) [] e.kind = "dirssome" -> JudgeDirsSome(e)
           [] OTHER -> JudgeCounts(e)
=============================================================================
