------------------------------- MODULE Placed -------------------------------
(* What a structure is in real space: label position i of a supercell holds *)
(* species e.lab[i+1]; it sits at parent site <<b, z>>, and when it has a   *)
(* direction digit d in 1..6 (+x -x +y -y +z -z) it is moved from there by  *)
(* e.j tenths of the length unit along that axis.  Positions are integers:  *)
(* Q-ths of the parent lattice vectors, Q = e.q * 10 * |det| * e.m with     *)
(* e.A the integer rows of the parent lattice.                              *)
EXTENDS Lattice
PN(e) == e.h[1]*e.h[3]*e.h[6]
PQ(e) == e.q * e.f
Digit(s, i) == s[i + 1]
Axis(d) == CASE d = 0 -> <<0,0,0>> [] d = 1 -> <<1,0,0>> [] d = 2 -> <<-1,0,0>> [] d = 3 -> <<0,1,0>>
             [] d = 4 -> <<0,-1,0>> [] d = 5 -> <<0,0,1>> [] d = 6 -> <<0,0,-1>>
\* Cartesian length e.j/10 along d, in parent coordinates times Q (f is a multiple of 10*det)
Shift(e, d) == IF d = 0 \/ e.j = 0 THEN <<0,0,0>>
               ELSE LET x == e.Ainv IN VScale(e.j * e.u, <<Dot(Axis(d), Col(x,1)), Dot(Axis(d), Col(x,2)), Dot(Axis(d), Col(x,3))>>)
\* the sites of the supercell: <<b, z>>, z the canonical cell
PSites(e) == {<<b, z>> : b \in 1..Len(e.D), z \in Box(e.h)}
SiteLab(e, s) == Digit(e.lab, SiteIx(e.L, e.S, s[1], s[2]))
SiteDir(e, s) == Digit(e.dirs, SiteIx(e.L, e.S, s[1], s[2]))
Home(e, s) == VAdd(VScale(e.f, e.D[s[1]]), VScale(PQ(e), s[2]))
Target(e, s) == VAdd(Home(e, s), Shift(e, SiteDir(e, s)))
\* nearest integer to x / Q
Near(x, Q) == (2 * x + Q) \div (2 * Q)
Cell0(e, v) == <<Near(v[1], PQ(e)), Near(v[2], PQ(e)), Near(v[3], PQ(e))>>
\* what is left of v after taking away the nearest lattice vector
Left0(e, v) == VSub(v, VScale(PQ(e), Cell0(e, v)))
Small(v, t) == AbsV(v[1]) <= t /\ AbsV(v[2]) <= t /\ AbsV(v[3]) <= t
\* an atom at p is the atom of site s: same point modulo the superlattice, up to
\* the allowed change of length of the displacement (e.rho hundredths) and rounding e.tol
AtomOf(e, p, s) ==
    LET v == VSub(p, Target(e, s)) IN
    /\ RedH(e.h, Cell0(e, v)) = <<0,0,0>>
    /\ LET r == Left0(e, v) d == SiteDir(e, s) IN
       IF d = 0 \/ e.rho = 0 \/ e.j = 0 THEN Small(r, e.tol)
       ELSE LET w == Shift(e, d)
                x == LET y == e.Ainv a == Axis(d) IN <<Dot(a, Col(y,1)), Dot(a, Col(y,2)), Dot(a, Col(y,3))>>
                k == CHOOSE k \in 1..3 : \A l \in 1..3 : AbsV(x[l]) <= AbsV(x[k])
            IN \* r parallel to w and |r| <= rho |w|
               /\ \A l \in 1..3 : AbsV(r[l] * x[k] - r[k] * x[l]) <= 2 * e.tol * AbsV(x[k])
               /\ AbsV(r[k]) <= (e.rho * (AbsV(w[k]) \div 100)) + e.rho + e.tol
\* species \X place: every site of the structure has its atom and every atom its site
Placed(e, atoms) == /\ Len(atoms) = PN(e) * Len(e.D)
                    /\ \A s \in PSites(e) : Cardinality({i \in DOMAIN atoms : atoms[i].sp = SiteLab(e, s) /\ AtomOf(e, atoms[i].p, s)}) = 1
                    /\ \A i \in DOMAIN atoms : \E s \in PSites(e) : AtomOf(e, atoms[i].p, s)
\* two different sites may be displaced onto the same point; then count the atoms there
PlacedLoose(e, atoms) == /\ Len(atoms) = PN(e) * Len(e.D)
                         /\ \A s \in PSites(e) : Cardinality({i \in DOMAIN atoms : atoms[i].sp = SiteLab(e, s) /\ AtomOf(e, atoms[i].p, s)})
                                = Cardinality({t \in PSites(e) : SiteLab(e, t) = SiteLab(e, s) /\ LET v == VSub(Target(e, t), Target(e, s)) IN
                                      RedH(e.h, Cell0(e, v)) = <<0,0,0>> /\ Left0(e, v) = <<0,0,0>>})
                         /\ \A i \in DOMAIN atoms : \E s \in PSites(e) : atoms[i].sp = SiteLab(e, s) /\ AtomOf(e, atoms[i].p, s)
Supercell(e) == AbsV(Det(e.slv)) = PN(e) /\ SameLattice(Tr(e.slv), Full(e.h), PN(e))
\* rows of the supercell sorted by length are a Minkowski reduced basis
GN(e, v) == Dot(v, MV(e.G, v))
ReducedRows(e, W) == LET b == SortSeq(W, LAMBDA u, v : GN(e, u) < GN(e, v)) IN
    /\ \A x \in {-1, 1} : GN(e, b[2]) <= GN(e, VAdd(b[2], VScale(x, b[1])))
    /\ \A x, y \in {-1, 0, 1} : GN(e, b[3]) <= GN(e, VAdd(b[3], VAdd(VScale(x, b[1]), VScale(y, b[2]))))
=============================================================================
