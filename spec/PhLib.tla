------------------------------- MODULE PhLib -------------------------------
(* Small integer linear algebra and counting used by every other module.    *)
(* Vectors are sequences of length 3, matrices sequences of three rows.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
MV(M, v)  == <<Dot(M[1], v), Dot(M[2], v), Dot(M[3], v)>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Tr(M)     == <<Col(M, 1), Col(M, 2), Col(M, 3)>>
MM(M, N)  == LET t == Tr(N) IN
             << <<Dot(M[1], t[1]), Dot(M[1], t[2]), Dot(M[1], t[3])>>,
                <<Dot(M[2], t[1]), Dot(M[2], t[2]), Dot(M[2], t[3])>>,
                <<Dot(M[3], t[1]), Dot(M[3], t[2]), Dot(M[3], t[3])>> >>
Cross(u, v) == <<u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3], u[1]*v[2] - u[2]*v[1]>>
Det(M)    == Dot(M[1], Cross(M[2], M[3]))
\* M * Adj(M) = Adj(M) * M = Det(M) * I
Adj(M)    == Tr(<<Cross(M[2], M[3]), Cross(M[3], M[1]), Cross(M[1], M[2])>>)
I3        == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
VAdd(u, v) == <<u[1]+v[1], u[2]+v[2], u[3]+v[3]>>
VSub(u, v) == <<u[1]-v[1], u[2]-v[2], u[3]-v[3]>>
VScale(k, v) == <<k*v[1], k*v[2], k*v[3]>>
VMod(v, q) == <<v[1] % q, v[2] % q, v[3] % q>>
VModS(v, S) == <<v[1] % S[1], v[2] % S[2], v[3] % S[3]>>
MScale(k, M) == <<VScale(k, M[1]), VScale(k, M[2]), VScale(k, M[3])>>
Entries(M) == M[1] \o M[2] \o M[3]
AllDiv(M, n) == \A k \in 1..9 : Entries(M)[k] % n = 0
Unimodular(M) == Det(M) \in {1, -1}
AbsV(x) == IF x < 0 THEN -x ELSE x
MaxV(x, y) == IF x < y THEN y ELSE x
MinV(x, y) == IF x < y THEN x ELSE y

RECURSIVE GcdV(_, _)
GcdV(a, b) == IF b = 0 THEN AbsV(a) ELSE GcdV(b, a % AbsV(b))

\* sum / product over a finite index set of an operator
SumOver(S, F(_)) == MapThenFoldSet(LAMBDA x, y : x + y, 0, F, LAMBDA T : CHOOSE t \in T : TRUE, S)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0
               ELSE IF k = 0 \/ k = n THEN 1
               ELSE IF k > n - k THEN Binom(n, n - k)
               ELSE (Binom(n - 1, k - 1) * n) \div k
RECURSIVE Multinom(_)
Multinom(cs) == IF Len(cs) <= 1 THEN 1
                ELSE Binom(SumSeq(cs), Head(cs)) * Multinom(Tail(cs))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

Fails(clauses) == {k \in DOMAIN clauses : ~clauses[k]}
Range1(f) == {f[x] : x \in DOMAIN f}
Distinct(s) == Cardinality(Range1(s)) = Len(s)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
=============================================================================
