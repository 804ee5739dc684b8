------------------------------- MODULE T_C18 -------------------------------
(* A structure in real space: e.pos are the atom positions in q-ths of the  *)
(* parent lattice vectors, e.gidx the label position each atom is linked    *)
(* to, e.slv the rows of the supercell in parent lattice coordinates.       *)
EXTENDS TraceBase, Lattice
N(e) == e.h[1]*e.h[3]*e.h[6]
ND(e) == Len(e.D)
\* the parent site an atom sits on: <<basis index, z>> (basis positions may lie outside the cell)
SitesOf(e, p) == {b \in 1..ND(e) : VMod(VSub(p, e.D[b]), e.q) = <<0,0,0>>}
CellOf(e, p, b) == LET d == VSub(p, e.D[b]) IN <<d[1] \div e.q, d[2] \div e.q, d[3] \div e.q>>
OnSite(e) == \A i \in DOMAIN e.pos : SitesOf(e, e.pos[i]) # {}
Site(e, i) == LET b == CHOOSE b \in SitesOf(e, e.pos[i]) : TRUE IN <<b, RedH(e.h, CellOf(e, e.pos[i], b))>>
Spin(k, lab) == IF k % 2 = 1 THEN lab - k \div 2 ELSE IF lab < k \div 2 THEN lab - k \div 2 ELSE lab - k \div 2 + 1
JudgeC18(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF ~OnSite(e) THEN {"on_parent_sites"}
    ELSE Fails([
        atoms |-> Len(e.pos) = N(e) * ND(e) /\ Len(e.gidx) = Len(e.pos),
        every_site_once |-> Cardinality({Site(e, i) : i \in DOMAIN e.pos}) = N(e) * ND(e),
        own_label |-> \A i \in DOMAIN e.pos : LET s == Site(e, i) IN e.gidx[i] = SiteIx(e.L, e.S, s[1], s[2]),
        supercell |-> AbsV(Det(e.slv)) = N(e) /\ SameLattice(Tr(e.slv), Full(e.h), N(e)),
        occupation |-> /\ Len(e.spin) = Len(e.gidx)
                       /\ \A i \in DOMAIN e.spin : e.spin[i] = Spin(e.k, e.lab[e.gidx[i] + 1]),
        fractions |-> Len(e.x) = e.k /\ \A c \in 1..e.k : e.x[c] = Count(e.lab, c - 1)])
=============================================================================
