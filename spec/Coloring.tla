------------------------------ MODULE Coloring ------------------------------
(* Colourings of a finite set of sites under a permutation group that may   *)
(* also permute displacement directions.                                    *)
(*                                                                          *)
(* A site carries the number 7*species + (direction + 1), direction + 1 = 0 *)
(* meaning "not displaced".  A group element is <<p, a>>, zero based: it    *)
(* turns x into y with y[j] = x[p[j]], every direction d becoming a[d].     *)
EXTENDS PhLib

Turn(a, c) == IF c % 7 = 0 THEN c ELSE (c \div 7) * 7 + a[c % 7] + 1
Act(g, x) == LET p == g[1] a == g[2] IN [j \in 1..Len(x) |-> Turn(a, x[p[j] + 1])]
Orbit(G, x) == {Act(G[k], x) : k \in DOMAIN G}
Equivalent(G, x, y) == \E k \in DOMAIN G : Act(G[k], x) = y
Species(c) == c \div 7
Displaced(c) == c % 7 # 0
\* "palette": the multiset of colours (species, displaced?) of a colouring, as a
\* function over the colour list cols (<<species, 0/1>>)
CountColour(x, col) == Cardinality({j \in DOMAIN x : Species(x[j]) = col[1] /\ (Displaced(x[j]) <=> col[2] = 1)})
HasPalette(x, cols, concs) == /\ \A i \in DOMAIN cols : CountColour(x, cols[i]) = concs[i]
                              /\ Len(x) = SumSeq(concs)
ArrowCount(cols, concs) == SumSeq([i \in DOMAIN cols |-> IF cols[i][2] = 1 THEN concs[i] ELSE 0])
\* number of all colourings with that palette
NumColourings(cols, concs, dim) == Multinom(concs) * Pow(dim, ArrowCount(cols, concs))
DirsOK(x, dim) == \A j \in DOMAIN x : x[j] % 7 <= dim
\* left unchanged by one of the non-trivial translations T (a set of group elements)
Superperiodic(T, x) == \E t \in T : t[1] # [j \in 1..Len(x) |-> j - 1] /\ Act(t, x) = x

IsPerm(p) == Range1(p) = 0..Len(p)-1
Compose(g, h) == \* Act(Compose(g,h), x) = Act(g, Act(h, x))
    << [j \in DOMAIN g[1] |-> h[1][g[1][j] + 1]], [d \in DOMAIN g[2] |-> g[2][h[2][d] + 1]] >>
IdEl(n, m) == << [j \in 1..n |-> j - 1], [j \in 1..m |-> j - 1] >>
IsGroup(S) == S # {} /\ \A g, h \in S : Compose(g, h) \in S
RECURSIVE Close(_, _, _)
\* closure of a set of elements: frontier search
Close(gens, done, front) ==
    IF front = {} THEN done
    ELSE LET new == {Compose(g, h) : g \in gens, h \in front} \ done
         IN Close(gens, done \cup new, new)
Generated(gens, n, m) == Close(gens, {IdEl(n, m)}, {IdEl(n, m)})

---------------------------------------------------------------------------
(* Counting orbits without listing them: Burnside's lemma.  The number of   *)
(* colourings fixed by an element is the number of ways to give its cycles  *)
(* colours (and, on displaced colours, a direction fixed by the cycle).     *)
(* Numbers can be huge, so everything is computed modulo a prime p.         *)
RECURSIVE CycleFrom(_, _, _)
CycleFrom(p, s, c) == IF p[s + 1] \in c THEN c ELSE CycleFrom(p, p[s + 1], c \cup {p[s + 1]})
CycleLens(p) == \* sequence of the cycle lengths of a zero based permutation
    LET cycles == {CycleFrom(p, s, {s}) : s \in 0..Len(p)-1}
        sq == SetToSeq(cycles)
    IN [i \in DOMAIN sq |-> Cardinality(sq[i])]
FixedDirs(a, k) == LET cyc(d) == Cardinality(CycleFrom(a, d, {d})) IN
                   Cardinality({d \in 0..Len(a)-1 : k % cyc(d) = 0})
\* weight: number of ways (mod p) to finish giving the cycles from i on their colours when
\* rem[j] sites of colour j are still to be given out
RECURSIVE FixDP(_, _, _, _, _)
FixDP(lens, fd, cols, tab, p) ==
    \* tab: function from remaining-vectors to weights; process the cycles one by one
    IF lens = <<>> THEN tab
    ELSE LET L == Head(lens) f == fd[L]
             step(r, j) == [r EXCEPT ![j] = @ - L]
             keys == UNION {{step(r, j) : j \in {j \in DOMAIN cols : r[j] >= L}} : r \in DOMAIN tab}
             w(s) == LET src == {j \in DOMAIN cols : [s EXCEPT ![j] = @ + L] \in DOMAIN tab} IN
                     SumOver(src, LAMBDA j : (tab[[s EXCEPT ![j] = @ + L]] * (IF cols[j][2] = 1 THEN f ELSE 1)) % p) % p
         IN FixDP(Tail(lens), fd, cols, TLCEval([s \in keys |-> w(s)]), p)
FixCount(g, cols, concs, p) ==
    LET lens == CycleLens(g[1])
        fd == TLCEval([L \in Range1(lens) |-> FixedDirs(g[2], L)])
        end == FixDP(lens, fd, cols, (concs :> 1), p)
        zero == [i \in DOMAIN concs |-> 0]
    IN IF zero \in DOMAIN end THEN end[zero] ELSE 0
\* group elements with the same cycle structure fix the same number: cls = sequence of
\* <<representative element, how many>>
SumFix(cls, cols, concs, p) == SumSeq([i \in DOMAIN cls |-> (FixCount(cls[i][1], cols, concs, p) * (cls[i][2] % p)) % p]) % p
CycleKey(g) == << SortSeq(CycleLens(g[1]), <), SortSeq(CycleLens(g[2]), <) >>
Classes(G) == \* <<representative, count>> per cycle structure
    LET keys == TLCEval([k \in DOMAIN G |-> CycleKey(G[k])])
        ks == SetToSeq(Range1(keys))
    IN [i \in DOMAIN ks |-> << G[CHOOSE k \in DOMAIN G : keys[k] = ks[i]], Count(keys, ks[i]) >>]
=============================================================================
