-------------------------------- MODULE Cells --------------------------------
(* Supercells with their sites numbered through the box of the Hermite form *)
(* (site (i, z): (i-1)*n + BoxIx), the permutations of the sites, and what  *)
(* an input file allows to put on them.                                     *)
EXTENDS Lattice
Vol(h) == h[1] * h[3] * h[6]
BoxOf(h, k) == <<k \div (h[3]*h[6]), (k \div h[6]) % h[3], k % h[6]>>
BSite(h, i, z) == (i-1) * Vol(h) + BoxIx(h, RedH(h, z))
\* zero based, new[j] = old[p[j]]
BoxPerm(op, t, h, D, q) ==
    LET n  == Vol(h)
        nd == Len(D)
        img == TLCEval([i \in 1..nd |-> AtomImage(op, i, D, q)])
        to  == TLCEval([s \in 0..(n*nd-1) |->
                  LET i == s \div n + 1 IN BSite(h, img[i][1], VAdd(VAdd(MV(op[1], BoxOf(h, s % n)), img[i][2]), t))])
    IN TLCEval([j \in 1..(n*nd) |-> CHOOSE s \in 0..(n*nd-1) : to[s] = j-1])
BoxTrans(h, D, q) == {BoxPerm(<<I3, <<0,0,0>> >>, t, h, D, q) : t \in Box(h)}
\* pairs <<site permutation, direction permutation>>; withA = FALSE: directions left alone
BoxPairs(sg, h, D, q, withA, A) ==
    LET tp == TLCEval(BoxTrans(h, D, q))
        rp == TLCEval({<<BoxPerm(op, <<0,0,0>>, h, D, q), IF withA THEN ArrowPerm(A, op[1]) ELSE <<0,1,2,3,4,5>> >> :
                       op \in FixOps(sg, Full(h), Vol(h))})
    IN {<<AfterT(r[1], t), r[2]>> : r \in rp, t \in tp}

---------------------------------------------------------------------------
(* Compositions: counts of k species on N sites within windows lo/den..hi/den *)
RECURSIVE CompsOf(_, _)
CompsOf(N, k) == IF k = 0 THEN (IF N = 0 THEN {<<>>} ELSE {})
                 ELSE UNION {{<<c>> \o r : r \in CompsOf(N - c, k - 1)} : c \in 0..N}
InWindow(c, N, w) == LET lo == MinV(w[1], w[2]) hi == MaxV(w[1], w[2]) IN lo * N <= c * w[3] /\ c * w[3] <= hi * N
\* e: k, restricted, win
AllowedComps(e, N) == IF e.restricted THEN {c \in CompsOf(N, e.k) : \A i \in 1..e.k : InWindow(c[i], N, e.win[i])}
                      ELSE CompsOf(N, e.k)
\* the colours of a composition when the fraction fr[i] = <<num, den>> of species i is displaced
\* (rounded down): sequence of <<species, displaced?, how many>>
ColoursOf(c, fr) ==
    LET d(i) == (c[i] * fr[i][1]) \div fr[i][2]
        \* plain colours first
        all == [i \in DOMAIN c |-> <<i, 0, c[i] - d(i)>>] \o [i \in DOMAIN c |-> <<i, 1, d(i)>>]
    IN SelectSeq(all, LAMBDA x : x[3] > 0)
=============================================================================
