------------------------------- MODULE T_C16 -------------------------------
(* The structure file written for a request file.                           *)
(* e.req: the lines of the request: [h, conc, num, full] (full: everything  *)
(* there is was asked for); e.super; e.hdr, e.rows: what the file says;     *)
(* e.back: what the library reads back from it.                             *)
EXTENDS TraceBase, Coloring, Cells
SmithOK(r) == SmithFor(r.L, r.S, r.h) /\ r.S[2] % r.S[1] = 0 /\ r.S[3] % r.S[2] = 0
CellOK(e, r) == LET N == Vol(r.h) * Len(e.D) IN
    /\ r.size = Vol(r.h)
    /\ Len(r.lab) = N /\ Len(r.dir) = N
    /\ \A s \in 1..N : r.lab[s] \in 0..e.k-1 /\ r.dir[s] \in 0..6
Code(r) == [s \in DOMAIN r.lab |-> 7 * (r.lab[s] + 1) + r.dir[s]]
ConcOf(e, r) == [i \in 1..e.k |-> Cardinality({s \in DOMAIN r.lab : r.lab[s] = i - 1})]
PaletteOf(e, c) == LET cl == ColoursOf(c, e.fr) IN [cols |-> [i \in DOMAIN cl |-> <<cl[i][1], cl[i][2]>>], num |-> [i \in DOMAIN cl |-> cl[i][3]]]
\* every arrangement of the colours
RECURSIVE Arr(_, _, _)
Arr(N, cols, num) == IF N = 0 THEN {<<>>}
    ELSE UNION { { <<7 * cols[i][1] + d>> \o r : r \in Arr(N - 1, cols, [num EXCEPT ![i] = @ - 1]),
                                                 d \in IF cols[i][2] = 1 THEN 1..6 ELSE {0} }
                 : i \in {i \in DOMAIN cols : num[i] > 0} }
RowsFor(e, q) == {i \in DOMAIN e.rows : e.rows[i].h = q.h /\ ConcOf(e, e.rows[i]) = q.conc}
\* what the file gives for one request line; gr: the cell's symmetry under the numbering of its rows
RequestFails(e, q, gr) ==
    LET R == RowsFor(e, q)
        pal == PaletteOf(e, q.conc)
        N == Vol(q.h) * Len(e.D)
        X == {Code(e.rows[i]) : i \in R}
        orbs == TLCEval([i \in R |-> Orbit(gr.G, Code(e.rows[i]))])
        un == UNION {orbs[i] : i \in R}
    IN Fails([colours |-> \A x \in X : HasPalette(x, pal.cols, pal.num),
              no_two_equivalent |-> SumOver(R, LAMBDA i : Cardinality(orbs[i])) = Cardinality(un),
              no_superperiodic |-> e.super \/ \A x \in X : ~Superperiodic(gr.T, x),
              none_missing |-> q.full => (IF e.super \/ N > 40 THEN Cardinality(un) = NumColourings(pal.cols, pal.num, 6)
                                          ELSE un = {x \in Arr(N, pal.cols, pal.num) : ~Superperiodic(gr.T, x)}),
              as_many_as_requested |-> Cardinality(R) <= q.num /\ (e.super => Cardinality(R) = q.num)])
CellFails(e, sg, h, withA) ==
    LET Q == {k \in DOMAIN e.req : e.req[k].h = h}
        R == {i \in DOMAIN e.rows : e.rows[i].h = h}
        a0 == <<0,1,2,3,4,5>>
    IN IF \E i, j \in R : e.rows[i].L # e.rows[j].L \/ e.rows[i].S # e.rows[j].S THEN {"one_numbering_per_cell"}
       ELSE LET r0 == e.rows[CHOOSE i \in R : TRUE]
                gr == IF R = {} THEN [G |-> <<>>, T |-> BoxPairs({<<I3, <<0,0,0>> >>}, h, e.D, e.q, FALSE, I3)]
                      ELSE [G |-> TLCEval(SetToSeq(IF withA THEN SuperPairs(sg, Full(h), r0.L, r0.S, e.D, e.q, e.A)
                                                   ELSE {<<p, a0>> : p \in SuperPerms(sg, Full(h), r0.L, r0.S, e.D, e.q)})),
                            T |-> TLCEval({<<p, a0>> : p \in TransPerms(r0.L, r0.S, e.D, e.q)})]
            IN UNION {RequestFails(e, e.req[k], gr) : k \in Q}
FileFails(e) ==
    LET n == Len(e.rows) IN Fails([
      numbered |-> \A i \in 1..n : e.rows[i].num = i,
      by_size |-> \A i \in 1..n-1 : e.rows[i].size <= e.rows[i+1].size,
      numbered_in_size |-> \A i \in 1..n-1 : e.rows[i+1].idx = IF e.rows[i].size = e.rows[i+1].size THEN e.rows[i].idx + 1 ELSE 1,
      only_requested |-> \A i \in 1..n : \E k \in DOMAIN e.req : e.req[k].h = e.rows[i].h /\ e.req[k].conc = ConcOf(e, e.rows[i]),
      smith |-> \A i \in 1..n : SmithOK(e.rows[i]),
      header |-> /\ e.hdr.bulk = "bulk" /\ e.hdr.k = e.k /\ e.hdr.nD = Len(e.D) /\ e.hdr.sizes = <<e.lo, e.hi>>
                 /\ e.hdr.restricted = (IF e.restricted THEN "T" ELSE "F")
                 /\ \A i, j \in 1..3 : LET a == e.hdr.lat[i][j] b == e.lat7[i][j] IN a[1] - b[1] \in -1..1 /\ (a[1] - b[1]) * 1000 + a[2] - b[2] \in -1..1,
      \* the atoms of the header are the ones the labels are about (all moved by one lattice vector at most)
      basis |-> /\ Len(e.hdr.D) = Len(e.D)
                /\ LET v(i) == VSub(e.hdr.D[i], e.D[i]) IN
                   /\ \A i \in DOMAIN e.D : VMod(v(i), e.q) = <<0,0,0>>
                   /\ \A i \in DOMAIN e.D : v(i) = v(1)])
JudgeC16(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF \E i \in DOMAIN e.rows : ~CellOK(e, e.rows[i]) THEN {"row"}
    ELSE LET f == FileFails(e) IN
         IF f # {} THEN f
         ELSE LET sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q))
                  withA == \E i \in DOMAIN e.fr : e.fr[i][1] > 0
              IN UNION {CellFails(e, sg, h, withA) : h \in {e.req[k].h : k \in DOMAIN e.req}}
                 \cup Fails([reads_back |-> e.back = e.rows, header_reads_back |-> e.headback])
=============================================================================
