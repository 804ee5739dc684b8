------------------------------- MODULE T_C15 -------------------------------
(* The tables of the polya command for an input file: e.G, D, types, q (and *)
(* A) the crystal, e.lo..e.hi the sizes, e.k, restricted, win, fr the       *)
(* species.  e.files: sizes of the files found; e.tables: their contents,   *)
(* every number given by its residues modulo the primes P4.                 *)
EXTENDS TraceBase, Coloring, Cells
P4 == <<32749, 32719, 32717, 32713>>
AddR(s) == [p \in 1..4 |-> SumSeq([i \in DOMAIN s |-> s[i][p]]) % P4[p]]
RowOrbit(h, rots) == {ColHNF(MM(U, Full(h))) : U \in rots}
TableFails(e, t, sg) ==
    LET all  == HNFs(t.size)
        rots == TLCEval({op[1] : op \in sg})
        hs   == [i \in DOMAIN t.rows |-> t.rows[i].hnf]
        comps == AllowedComps(e, t.size * Len(e.D))
        withA == \E i \in DOMAIN e.fr : e.fr[i][1] > 0
        nc == Len(t.concs)
        CountOK(r) == LET S == TLCEval(SetToSeq(BoxPairs(sg, r.hnf, e.D, e.q, withA, IF withA THEN e.A ELSE I3)))
                          cls == TLCEval(Classes(S))
                      IN \A c \in 1..nc :
                           LET cl == ColoursOf(t.concs[c], e.fr)
                               cols == [i \in DOMAIN cl |-> <<cl[i][1], cl[i][2]>>]
                               num == [i \in DOMAIN cl |-> cl[i][3]]
                           IN \A p \in 1..4 : SumFix(cls, cols, num, P4[p]) = (r.cnt[c][p] * (Len(S) % P4[p])) % P4[p]
    IN IF ~(Range1(hs) \subseteq all) THEN {"only_cells_of_this_size"}
       ELSE IF ~(Range1(t.concs) = comps /\ Distinct(t.concs)) THEN {"compositions"}
       ELSE LET orbs == TLCEval([i \in DOMAIN hs |-> RowOrbit(hs[i], rots)])
                un == UNION {orbs[i] : i \in DOMAIN hs}
            IN Fails([no_two_equivalent_cells |-> SumSeq([i \in DOMAIN hs |-> Cardinality(orbs[i])]) = Cardinality(un),
                      every_cell |-> un = all,
                      counts |-> \A i \in DOMAIN t.rows : CountOK(t.rows[i]),
                      row_totals |-> \A i \in DOMAIN t.rows : t.rowtot[i] = AddR(t.rows[i].cnt),
                      column_totals |-> t.coltot = [c \in 1..nc |-> AddR([i \in DOMAIN t.rows |-> t.rows[i].cnt[c]])],
                      grand_total |-> t.grand = AddR(t.coltot)])
JudgeC15(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q)) IN
         Fails([one_file_per_size |-> e.files = [i \in 1..(e.hi - e.lo + 1) |-> e.lo + i - 1],
                nothing_else |-> e.others = <<>>])
         \cup UNION {TableFails(e, e.tables[i], sg) : i \in DOMAIN e.tables}
=============================================================================
