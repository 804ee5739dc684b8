------------------------------ MODULE Lattice ------------------------------
(* The geometry of the problem, entirely in integers: superlattices as      *)
(* Hermite normal forms, point and space group of a crystal given by the    *)
(* Gram matrix of its lattice and the positions of its atoms in q-ths of    *)
(* the lattice vectors, and the group of permutations of the sites of a     *)
(* supercell.  Written from the definitions, not from the code.             *)
EXTENDS PhLib

---------------------------------------------------------------------------
(* Superlattices *)
Triples(n) == {t \in (1..n) \X (1..n) \X (1..n) : t[1]*t[2]*t[3] = n}
\* <<a,b,c,d,e,f>> stands for ((a,0,0),(b,c,0),(d,e,f))
HNFs(n) == UNION { { <<t[1], b, t[2], d, e, t[3]>> : b \in 0..t[2]-1, d \in 0..t[3]-1, e \in 0..t[3]-1 }
                   : t \in Triples(n) }
Full(h) == << <<h[1],0,0>>, <<h[2],h[3],0>>, <<h[4],h[5],h[6]>> >>
Six(H)  == <<H[1][1], H[2][1], H[2][2], H[3][1], H[3][2], H[3][3]>>
RECURSIVE DivisorSum(_, _)
DivisorSum(n, d) == IF d > n THEN 0 ELSE (IF n % d = 0 THEN d ELSE 0) + DivisorSum(n, d + 1)
\* the number of sublattices of index n of Z^3: sum over d | n of d * sigma(d)
RECURSIVE NumSub(_, _)
NumSub(n, d) == IF d > n THEN 0
                ELSE (IF n % d = 0 THEN d * DivisorSum(d, 1) ELSE 0) + NumSub(n, d + 1)

\* columns of M1 and M2 (same |det| = n) span the same lattice
SameLattice(M1, M2, n) == AllDiv(MM(Adj(M2), M1), n)
\* the superlattice spanned by the columns of H is left fixed by U
FixesSuper(U, H, n) == AllDiv(MM(Adj(H), MM(U, H)), n)

\* reduce an integer vector modulo the columns of a lower triangular H
RedH(h, z) == LET q1 == z[1] \div h[1]
                  y2 == z[2] - q1*h[2]
                  q2 == y2 \div h[3]
                  y3 == z[3] - q1*h[4] - q2*h[5]
              IN <<z[1] - q1*h[1], y2 - q2*h[3], y3 % h[6]>>
Box(h) == {<<x, y, z>> : x \in 0..h[1]-1, y \in 0..h[3]-1, z \in 0..h[6]-1}
BoxIx(h, r) == r[1]*h[3]*h[6] + r[2]*h[6] + r[3]

\* canonical normal form (as six numbers) of the lattice spanned by the columns of M
FDiv(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)
RECURSIVE Euclid(_, _, _)
Euclid(u, v, r) == IF v[r] = 0 THEN <<u, v>>
                   ELSE Euclid(v, VSub(u, VScale(FDiv(u[r], v[r]), v)), r)
Pos(v, r) == IF v[r] < 0 THEN VScale(-1, v) ELSE v
ColHNF(M) ==
    LET e1 == Euclid(Col(M,1), Col(M,2), 1)
        e2 == Euclid(e1[1], Col(M,3), 1)
        e3 == Euclid(e1[2], e2[2], 2)
        u1 == Pos(e2[1], 1)  u2 == Pos(e3[1], 2)  u3 == Pos(e3[2], 3)
        w1 == VSub(u1, VScale(u1[2] \div u2[2], u2))
        x2 == VSub(u2, VScale(u2[3] \div u3[3], u3))
        x1 == VSub(w1, VScale(w1[3] \div u3[3], u3))
    IN <<x1[1], x1[2], x2[2], x1[3], x2[3], u3[3]>>

---------------------------------------------------------------------------
(* Point group in lattice coordinates: columns of U are the images of the   *)
(* basis vectors, U^T G U = G.                                              *)
ISqrt(x, y) == \* largest b with b*b*y <= x
    CHOOSE b \in 0..60 : b*b*y <= x /\ (b+1)*(b+1)*y > x
\* for Gram matrices of large numbers (lattices that nearly have a symmetry) the bound comes from a coarser one
Coarse(G) == LET m == MaxV(G[1][1], MaxV(G[2][2], G[3][3])) c == m \div 500 IN
             [i \in 1..3 |-> [j \in 1..3 |-> (G[i][j] + c \div 2) \div c]]
SBound(G) == LET a == Adj(G) d == Det(G) m == MaxV(G[1][1], MaxV(G[2][2], G[3][3])) IN
             [j \in 1..3 |-> ISqrt(m * a[j][j], d)]
GBound(G) == IF MaxV(G[1][1], MaxV(G[2][2], G[3][3])) <= 1000 THEN SBound(G)
             ELSE LET B == SBound(Coarse(G)) IN [j \in 1..3 |-> B[j] + 1]
GIn(G, u, v) == Dot(u, MV(G, v))
GVecs(G, m, B) == {v \in (-B[1]..B[1]) \X (-B[2]..B[2]) \X (-B[3]..B[3]) : GIn(G, v, v) = m}
PointGroup(G) ==
    LET B  == GBound(G)
        S1 == GVecs(G, G[1][1], B)
        S2 == GVecs(G, G[2][2], B)
        S3 == GVecs(G, G[3][3], B)
        P2 == {p \in S1 \X S2 : GIn(G, p[1], p[2]) = G[1][2]}
    IN UNION { { Tr(<<p[1], p[2], w>>) : w \in {x \in S3 : GIn(G, p[1], x) = G[1][3] /\ GIn(G, p[2], x) = G[2][3]} }
               : p \in P2 }

---------------------------------------------------------------------------
(* Space group: D[i] are atom positions in lattice coordinates times q,     *)
(* T[i] atom types.  An operation is <<U, tau>>, tau in 0..q-1.             *)
IsSpaceOp(U, tau, D, T, q) ==
    \A k \in DOMAIN D : \E l \in DOMAIN D : T[k] = T[l] /\ VMod(VAdd(MV(U, D[k]), tau), q) = VMod(D[l], q)
SpaceGroup(G, D, T, q) ==
    LET pg == PointGroup(G)
        cand(U) == {VMod(VSub(D[j], MV(U, D[1])), q) : j \in {j \in DOMAIN D : T[j] = T[1]}}
    IN UNION { { <<U, tau>> : tau \in {t \in cand(U) : IsSpaceOp(U, t, D, T, q)} } : U \in pg }
\* image of atom k: <<index of the image atom, integer vector w>> with U D[k] + tau = D[l] + q w
AtomImage(op, k, D, q) ==
    LET p == VAdd(MV(op[1], D[k]), op[2])
        l == CHOOSE l \in DOMAIN D : VMod(p, q) = VMod(D[l], q)
        d == VSub(p, D[l])
    IN <<l, <<d[1] \div q, d[2] \div q, d[3] \div q>> >>

---------------------------------------------------------------------------
(* Sites of a supercell, numbered through its Smith form: site (i, z) has   *)
(* number (i-1)*n + g1*S2*S3 + g2*S3 + g3, g = Lz mod S.                    *)
GIx(S, g) == g[1]*S[2]*S[3] + g[2]*S[3] + g[3]
GOf(S, k) == <<k \div (S[2]*S[3]), (k \div S[3]) % S[2], k % S[3]>>
SiteIx(L, S, i, z) == (i-1)*S[1]*S[2]*S[3] + GIx(S, VModS(MV(L, z), S))
\* L and S belong to the superlattice h: L*H = diag(S)*(unimodular)
SmithFor(L, S, h) == /\ Len(S) = 3 /\ Len(L) = 3 /\ \A i \in 1..3 : Len(L[i]) = 3
                     /\ Unimodular(L) /\ \A i \in 1..3 : S[i] > 0
                     /\ S[1] * S[2] * S[3] = h[1] * h[3] * h[6]
                     /\ LET M == MM(L, Full(h)) IN \A i, j \in 1..3 : M[i][j] % S[i] = 0
\* a representative z of group element number k
RepZ(L, S, k) == MV(MScale(Det(L), Adj(L)), GOf(S, k))

\* The permutation (zero based, new[j] = old[p[j]]) induced by op followed by
\* the lattice translation t.
SitePerm(op, t, L, S, D, q) ==
    LET n   == S[1]*S[2]*S[3]
        nd  == Len(D)
        img == TLCEval([i \in 1..nd |-> AtomImage(op, i, D, q)])
        reps == TLCEval([k \in 0..n-1 |-> RepZ(L, S, k)])
        to  == TLCEval([s \in 0..(n*nd-1) |->
                  LET i == s \div n + 1  k == s % n IN
                  SiteIx(L, S, img[i][1], VAdd(VAdd(MV(op[1], reps[k]), img[i][2]), t))])
        inv == TLCEval([j \in 0..(n*nd-1) |-> CHOOSE s \in 0..(n*nd-1) : to[s] = j])
    IN TLCEval([j \in 1..(n*nd) |-> inv[j-1]])
FixOps(sg, H, n) == {op \in sg : FixesSuper(op[1], H, n)}
\* after an operation the further translations multiply the permutation
AfterT(p, tp) == TLCEval([j \in 1..Len(p) |-> p[tp[j] + 1]])
TransPerms(L, S, D, q) ==
    LET n == S[1]*S[2]*S[3] IN
    {SitePerm(<<I3, <<0,0,0>> >>, RepZ(L, S, k), L, S, D, q) : k \in 0..n-1}
SuperPerms(sg, H, L, S, D, q) ==
    LET n  == S[1]*S[2]*S[3]
        tp == TLCEval(TransPerms(L, S, D, q))
        rp == TLCEval({SitePerm(op, <<0,0,0>>, L, S, D, q) : op \in FixOps(sg, H, n)})
    IN {AfterT(r, t) : r \in rp, t \in tp}

---------------------------------------------------------------------------
(* Directions +x,-x,+y,-y,+z,-z (numbers 0..5) under the Cartesian rotation *)
(* of U for a lattice whose vectors are the rows of the integer matrix A:   *)
(* R = A^T U A^-T.                                                          *)
Dirs == << <<1,0,0>>, <<-1,0,0>>, <<0,1,0>>, <<0,-1,0>>, <<0,0,1>>, <<0,0,-1>> >>
CartDet(A, U) == MM(MM(Tr(A), U), Adj(Tr(A)))      \* Det(A) * R
MapsAxes(A, U) == LET R == CartDet(A, U) d == Det(A) IN
    \A a \in 1..6 : \E b \in 1..6 : MV(R, Dirs[a]) = VScale(d, Dirs[b])
ArrowPerm(A, U) == LET R == CartDet(A, U) d == Det(A) IN
    [a \in 1..6 |-> (CHOOSE b \in 1..6 : MV(R, Dirs[a]) = VScale(d, Dirs[b])) - 1]
\* all pairs <<site permutation, direction permutation>>
SuperPairs(sg, H, L, S, D, q, A) ==
    LET n  == S[1]*S[2]*S[3]
        tp == TLCEval(TransPerms(L, S, D, q))
        rp == TLCEval({<<SitePerm(op, <<0,0,0>>, L, S, D, q), ArrowPerm(A, op[1])>> : op \in FixOps(sg, H, n)})
    IN {<<AfterT(r[1], t), r[2]>> : r \in rp, t \in tp}
=============================================================================
