------------------------------- MODULE T_C20 -------------------------------
(* Folding of points.  A point is p/q in parent lattice coordinates (p      *)
(* integer).  kind "direct": the cell has rows e.R in those coordinates, the*)
(* answer is in units of 1/(q*|det R|) of the cell vectors.  kind "fold":   *)
(* the cell is the parent cell, the answer is in q-ths again.               *)
EXTENDS TraceBase, Lattice
\* p = c . R with c = p . R^-1 = p . Adj(R) / Det(R)
RowTimes(p, M) == MV(Tr(M), p)
DirectOf(e, p) == LET d == Det(e.R) c == RowTimes(p, Adj(e.R)) IN
                  VMod(IF d < 0 THEN VScale(-1, c) ELSE c, e.q * AbsV(d))
Want(e, p) == IF e.kind = "direct" THEN DirectOf(e, p) ELSE VMod(p, e.q)
Unit(e) == IF e.kind = "direct" THEN e.q * AbsV(Det(e.R)) ELSE e.q
InCell(e, g) == \A k \in 1..3 : g[k] \in 0..Unit(e)-1
JudgeC20(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE Fails([all_points |-> Len(e.out) = Len(e.pts),
                in_cell |-> \A i \in DOMAIN e.out : InCell(e, e.out[i]) /\ e.inside,
                same_point |-> \A i \in DOMAIN e.out : VMod(e.out[i], Unit(e)) = Want(e, e.pts[i])])
=============================================================================
