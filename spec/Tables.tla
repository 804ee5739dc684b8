------------------------------- MODULE Tables -------------------------------
(* The Polya tables and what may be selected from them.                     *)
(* e.tables: sequence of [size, concs, rows]; a row is [hnf, cnt] with one  *)
(* count per composition.  e.sizes: the requested sizes.  e.rt: "none",     *)
(* "shape" or "conc", the kind of filter, e.rv the values listed in it.     *)
EXTENDS PhLib, Big
InFilter(e, hnf, conc) == \/ e.rt = "none"
                          \/ e.rt = "shape" /\ \E i \in DOMAIN e.rv : e.rv[i] = hnf
                          \/ e.rt = "conc" /\ \E i \in DOMAIN e.rv : e.rv[i] = conc
\* every selected entry with its number: <<size, hnf, conc, number>>
TSel(e) == {i \in DOMAIN e.tables : \E k \in DOMAIN e.sizes : e.sizes[k] = e.tables[i].size}
Entries4(e) == UNION { UNION { { <<e.tables[i].size, e.tables[i].rows[r].hnf, e.tables[i].concs[c], e.tables[i].rows[r].cnt[c]>> :
                                   c \in {c \in DOMAIN e.tables[i].concs : InFilter(e, e.tables[i].rows[r].hnf, e.tables[i].concs[c])} }
                               : r \in DOMAIN e.tables[i].rows } : i \in TSel(e) }
Sum4(S) == SumOver(S, LAMBDA x : x[4])
\* what a distribution over ftype distinguishes
KeyOf(ft, x) == CASE ft = "all" -> <<x[1], x[2], x[3]>>
                  [] ft = "shape" -> <<x[1], x[2], <<>> >>
                  [] ft = "conc" -> <<x[1], <<>>, x[3]>>
                  [] ft = "size" -> <<x[1], <<>>, <<>> >>
KeysOf(ft, E) == {KeyOf(ft, x) : x \in E}
LimitOf(ft, E, k) == Sum4({x \in E : KeyOf(ft, x) = k})
\* the same for numbers given by their digits
BSum4(S) == FoldSet(LAMBDA x, a : BAdd(x[4], a), <<>>, S)
BLimit(ft, E, k) == BSum4({x \in E : KeyOf(ft, x) = k})
=============================================================================
