----------------------------- MODULE Derivative -----------------------------
(* Structures of the infinite crystal: <<h, x>> is the colouring with the   *)
(* periods of the superlattice h (canonical form) whose sites of one cell,  *)
(* in the order of the box of h, have the colours x.  Two structures are    *)
(* the same arrangement when an operation of the crystal takes one into the *)
(* other; the operation may change the shape of the cell.                   *)
EXTENDS Cells, Coloring
\* where the crystal operation op followed by t takes the sites of a cell h: the new cell and a
\* permutation (new[j] = old[p[j]])
Carry(op, t, h, D, q) ==
    LET n == Vol(h)  nd == Len(D)
        h2 == ColHNF(MM(op[1], Full(h)))
        img == TLCEval([i \in 1..nd |-> AtomImage(op, i, D, q)])
        to == TLCEval([s \in 0..(n*nd-1) |->
                 LET i == s \div n + 1 IN BSite(h2, img[i][1], VAdd(VAdd(MV(op[1], BoxOf(h, s % n)), img[i][2]), t))])
    IN [h |-> h2, p |-> TLCEval([j \in 1..(n*nd) |-> CHOOSE s \in 0..(n*nd-1) : to[s] = j-1])]
\* all the ways the crystal's operations take a cell h somewhere
Carries(sg, h, D, q, withA, A) ==
    TLCEval({LET c == Carry(op, <<0,0,0>>, h, D, q) IN [h |-> c.h, g |-> <<c.p, IF withA THEN ArrowPerm(A, op[1]) ELSE <<0,1,2,3,4,5>> >>] : op \in sg})
Images(car, tr, x) == \* car: carries of the cell of x, tr: translations per cell
    UNION {LET y == Act(c.g, x) IN {<<c.h, Act(t, y)>> : t \in tr[c.h]} : c \in car}
BoxTr(h, D, q) == {<<p, <<0,1,2,3,4,5>> >> : p \in BoxTrans(h, D, q)}
\* every arrangement of a sequence of colours cols (<<species, displaced>>) with the counts num
RECURSIVE ArrOf(_, _, _)
ArrOf(N, cols, num) == IF N = 0 THEN {<<>>}
    ELSE UNION { { <<7 * cols[i][1] + d>> \o r : r \in ArrOf(N - 1, cols, [num EXCEPT ![i] = @ - 1]),
                                                 d \in IF cols[i][2] = 1 THEN 1..6 ELSE {0} }
                 : i \in {i \in DOMAIN cols : num[i] > 0} }
\* all structures with n cells in the primitive repeat unit that the input file e allows
Structures(e, n, tr) ==
    LET N == n * Len(e.D)
        X == UNION {LET cl == ColoursOf(c, e.fr) IN ArrOf(N, [i \in DOMAIN cl |-> <<cl[i][1], cl[i][2]>>], [i \in DOMAIN cl |-> cl[i][3]]) : c \in AllowedComps(e, N)}
    IN UNION {{<<h, x>> : x \in {y \in X : ~Superperiodic(tr[h], y)}} : h \in HNFs(n)}
=============================================================================
