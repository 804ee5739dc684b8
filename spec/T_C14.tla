------------------------------- MODULE T_C14 -------------------------------
(* The summary of the tables: e.distr the selected entries as [size, hnf,   *)
(* conc, num]; e.ct, e.stt, e.gt, e.total the totals per composition, per   *)
(* shape, per size and overall.  e.rows: what a distribution of everything  *)
(* wrote to a file or to the screen.                                        *)
EXTENDS TraceBase, Tables, Big
Q4(x) == <<x.size, x.hnf, x.conc, x.num>>
Nz(S) == {x \in S : x[4] # <<>>}
JudgeC14(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET E == Entries4(e) IN Fails([
        entries |-> {Q4(x) : x \in Range1(e.distr)} = E /\ Len(e.distr) = Cardinality(E),
        per_composition |-> /\ \A x \in Range1(e.ct) : x.num = BLimit("conc", E, <<x.size, <<>>, x.conc>>)
                            /\ \A k \in KeysOf("conc", E) : \E x \in Range1(e.ct) : <<x.size, <<>>, x.conc>> = k,
        per_shape |-> /\ \A x \in Range1(e.stt) : x.num = BLimit("shape", E, <<x.size, x.hnf, <<>> >>)
                      /\ \A k \in KeysOf("shape", E) : \E x \in Range1(e.stt) : <<x.size, x.hnf, <<>> >> = k,
        per_size |-> /\ \A x \in Range1(e.gt) : x.num = BLimit("size", E, <<x.size, <<>>, <<>> >>)
                     /\ \A k \in KeysOf("size", E) : \E x \in Range1(e.gt) : x.size = k[1],
        overall |-> e.total = BSum4(E),
        listed |-> /\ {<<x.size, x.hnf, x.conc, x.num>> : x \in Range1(e.rows)}
                         = Nz({<<k[1], k[2], k[3], BLimit(e.ft, E, k)>> : k \in KeysOf(e.ft, E)})
                   /\ Distinct([i \in DOMAIN e.rows |-> e.rows[i]]),
        shown |-> (Len(e.shown) > 0 \/ e.ft # "all") =>
                     {Q4(x) : x \in Range1(e.shown)} = {<<x.size, x.hnf, x.conc, x.num>> : x \in Range1(e.rows)},
        unsaved |-> e.saved = e.asked])
=============================================================================
