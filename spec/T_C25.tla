------------------------------- MODULE T_C25 -------------------------------
(* A whole enumeration of an input file (e.G, D, types, q, A: the crystal;  *)
(* e.lo..e.hi, e.k, restricted, win, fr), read as structures of the         *)
(* infinite crystal.                                                        *)
EXTENDS TraceBase, Derivative
RowOK(e, r) == LET N == Vol(r.h) * Len(e.D) IN
    /\ Vol(r.h) \in e.lo..e.hi
    /\ Len(r.lab) = N /\ Len(r.dir) = N /\ \A s \in 1..N : r.lab[s] \in 0..e.k-1 /\ r.dir[s] \in 0..6
    /\ SmithFor(r.L, r.S, r.h)
\* the structure a row stands for
StructOf(e, r) ==
    LET h == ColHNF(Full(r.h))  n == Vol(h)
    IN <<h, TLCEval([j \in 1..(n * Len(e.D)) |-> LET s == SiteIx(r.L, r.S, (j-1) \div n + 1, BoxOf(h, (j-1) % n)) + 1 IN 7 * (r.lab[s] + 1) + r.dir[s]])>>
SizeFails(e, n, sg, withA) ==
    LET tr == TLCEval([h \in HNFs(n) |-> BoxTr(h, e.D, e.q)])
        all == TLCEval(Structures(e, n, tr))
        R == {i \in DOMAIN e.rows : Vol(e.rows[i].h) = n}
        st == TLCEval([i \in R |-> StructOf(e, e.rows[i])])
        car == TLCEval([h \in {st[i][1] : i \in R} |-> Carries(sg, h, e.D, e.q, withA, IF withA THEN e.A ELSE I3)])
        cls == TLCEval([i \in R |-> Images(car[st[i][1]], tr, st[i][2])])
        un == UNION {cls[i] : i \in R}
    IN Fails([only_structures_of_this_size |-> \A i \in R : st[i] \in all,
              none_missing |-> all \subseteq un,
              none_twice |-> SumOver(R, LAMBDA i : Cardinality(cls[i])) = Cardinality(un)])
JudgeC25(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF \E i \in DOMAIN e.rows : ~RowOK(e, e.rows[i]) THEN {"row"}
    ELSE LET sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q))
             withA == \E i \in DOMAIN e.fr : e.fr[i][1] > 0
         IN UNION {SizeFails(e, n, sg, withA) : n \in e.lo..e.hi}
=============================================================================
