----------------------------- MODULE MC_Lattice -----------------------------
(* Design-level check of the geometry module: the definitions agree with    *)
(* each other and with the known counts.  One state per cell size.          *)
EXTENDS Lattice
CONSTANT MaxN
VARIABLE n
Init == n = 1
Next == n < MaxN /\ n' = n + 1
\* number of Hermite normal forms = number of sublattices of Z^3
CountOK == Cardinality(HNFs(n)) = NumSub(n, 1)
\* distinct normal forms are distinct lattices
DistinctOK == n <= 6 => \A h1, h2 \in HNFs(n) : SameLattice(Full(h1), Full(h2), n) => h1 = h2
BoxOK == \A h \in HNFs(n) : Cardinality(Box(h)) = n /\ Cardinality({BoxIx(h, r) : r \in Box(h)}) = n
\* reduction modulo the superlattice is a retraction onto the box and constant on cosets
RedOK == n <= 6 => \A h \in HNFs(n) : \A z \in (-2..2) \X (-2..2) \X (-2..2) :
            LET r == RedH(h, z) IN r \in Box(h) /\ RedH(h, r) = r
               /\ \A j \in 1..3 : RedH(h, VAdd(z, Col(Full(h), j))) = r
               /\ \A k \in 1..3 : MV(Adj(Full(h)), VSub(z, r))[k] % n = 0
HnfOK == n <= 8 => \A h \in HNFs(n) : \A U \in {I3, << <<0,1,0>>, <<-1,0,0>>, <<0,0,1>> >>, << <<1,1,0>>, <<0,1,-1>>, <<1,0,-1>> >> } :
            Unimodular(U) => LET g == ColHNF(MM(U, Full(h))) IN g \in HNFs(n) /\ SameLattice(MM(U, Full(h)), Full(g), n)
SC == I3
FCC == << <<2,1,1>>, <<1,2,1>>, <<1,1,2>> >>
BCC == << <<3,-1,-1>>, <<-1,3,-1>>, <<-1,-1,3>> >>
HEX == << <<2,-1,0>>, <<-1,2,0>>, <<0,0,5>> >>
TET == << <<1,0,0>>, <<0,1,0>>, <<0,0,3>> >>
ORT == << <<1,0,0>>, <<0,2,0>>, <<0,0,5>> >>
MON == << <<4,0,1>>, <<0,5,0>>, <<1,0,7>> >>
TRI == << <<4,1,1>>, <<1,5,2>>, <<1,2,7>> >>
RHO == << <<4,1,1>>, <<1,4,1>>, <<1,1,4>> >>
Grams == <<SC, FCC, BCC, HEX, TET, ORT, MON, TRI, RHO>>
Orders == <<48, 48, 48, 24, 16, 8, 4, 2, 12>>
IsGroupM(S) == I3 \in S /\ \A x, y \in S : MM(x, y) \in S
PGOK == n <= Len(Grams) => LET pg == PointGroup(Grams[n]) IN
            Cardinality(pg) = Orders[n] /\ IsGroupM(pg)
\* the number of symmetry-distinct supercells of the cubic lattices (published tables)
Classes(G, m) == LET pg == PointGroup(G) hs == HNFs(m)
                     orb(h) == {g \in hs : \E U \in pg : SameLattice(MM(U, Full(h)), Full(g), m)}
                 IN Cardinality({orb(h) : h \in hs})
FccDistinct == <<1, 2, 3, 7, 5, 10, 7>>
FccOK == n <= 5 => Classes(FCC, n) = FccDistinct[n]
=============================================================================
