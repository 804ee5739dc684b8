------------------------------- MODULE T_C19 -------------------------------
(* Reduction of a basis.  Vectors are given by integer coordinates in a     *)
(* lattice with integer Gram matrix e.G: rows e.R before, rows e.W after.   *)
EXTENDS TraceBase, Lattice
IP(G, u, v) == Dot(u, MV(G, v))
N2(G, v) == IP(G, v, v)
SameRowLattice(R, W) == LET d == Det(R) IN AbsV(Det(W)) = AbsV(d) /\ d # 0 /\ AllDiv(MM(W, Adj(R)), AbsV(d))
Sorted3(G, W) == SortSeq(W, LAMBDA u, v : N2(G, u) < N2(G, v))
\* the twelve Minkowski conditions for a basis sorted by length
Minkowski(G, b) ==
    /\ N2(G, b[1]) <= N2(G, b[2]) /\ N2(G, b[2]) <= N2(G, b[3])
    /\ \A x \in {-1, 1} : N2(G, b[2]) <= N2(G, VAdd(b[2], VScale(x, b[1])))
    /\ \A x, y \in {-1, 0, 1} : N2(G, b[3]) <= N2(G, VAdd(b[3], VAdd(VScale(x, b[1]), VScale(y, b[2]))))
ShortestFirst(G, W) == \A x \in -2..2, y \in -2..2, z \in -2..2 :
    (x # 0 \/ y # 0 \/ z # 0) =>
        N2(G, W[1]) <= N2(G, VAdd(VScale(x, W[1]), VAdd(VScale(y, W[2]), VScale(z, W[3]))))
\* two vectors: same plane lattice
Same2(R, W) == \* W = M R with M integer of determinant 1 or -1, through the cross products and a Cramer test
    LET n == Cross(R[1], R[2]) m == Cross(W[1], W[2]) IN
    /\ (m = n \/ m = VScale(-1, n))
    /\ n # <<0,0,0>>
    /\ \A i \in 1..2 : LET k == CHOOSE k \in 1..3 : n[k] # 0
                           a == Cross(W[i], R[2])[k]  b == Cross(R[1], W[i])[k]
                       IN a % AbsV(n[k]) = 0 /\ b % AbsV(n[k]) = 0
Reduced2(G, W) == N2(G, W[1]) <= N2(G, W[2]) /\ 2 * AbsV(IP(G, W[1], W[2])) <= N2(G, W[1])
JudgeC19(e) ==
    IF e.st # "ok" THEN {"terminates"}
    ELSE IF e.kind = "two"
    THEN Fails([same_lattice |-> Same2(e.R, e.W), shortest |-> Reduced2(e.G, e.W)])
    ELSE Fails([same_lattice |-> SameRowLattice(e.R, e.W),
                minkowski |-> Minkowski(e.G, Sorted3(e.G, e.W)),
                shortest_first |-> ShortestFirst(e.G, e.W)])
=============================================================================
