------------------------------ MODULE MC_Tree ------------------------------
(* The tree search that lists the distinct colourings: one level per colour,*)
(* which is placed on the sites the levels above left free.  A partial      *)
(* colouring is followed only if no element of its parent's stabiliser      *)
(* moves it to a smaller one; a leaf that carries displacements is followed *)
(* by all arrangements of directions that its stabiliser cannot make        *)
(* smaller.  One run for every group of N sites and D directions (generated *)
(* by two elements) and every composition with every set of displaced       *)
(* colours.                                                                 *)
EXTENDS Coloring
CONSTANTS N, D, MaxColours
VARIABLES grp, concs, arrowed, path, todo, leaves, visited
tv == <<grp, concs, arrowed, path, todo, leaves, visited>>
Perms(n) == {p \in [1..n -> 0..n-1] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Elements == Perms(N) \X Perms(D)
Groups == {Generated({g, h}, N, D) : g \in Elements, h \in Elements}
Compositions == UNION {{c \in [1..k -> 1..N] : SumSeq(c) = N} : k \in 1..MaxColours}

Moved(g, S) == {s \in 0..N-1 : g[1][s + 1] \in S}          \* the sites of a colour after g
Weight(S) == SumOver(S, LAMBDA s : Pow(2, s))              \* the order in which candidates are tried
Free(p) == (0..N-1) \ UNION Range1(p)
\* elements that leave every placed colour where it is
Stab(p) == {g \in grp : \A i \in DOMAIN p : Moved(g, p[i]) = p[i]}
Candidates(p) == kSubset(concs[Len(p) + 1], Free(p))
Smallest(p, S) == \A g \in Stab(p) : Weight(S) <= Weight(Moved(g, S))
First(C) == CHOOSE S \in C : \A T \in C : Weight(S) <= Weight(T)

Full(p) == Len(p) = Len(concs)
ColourAt(p, s) == CHOOSE i \in DOMAIN p : s \in p[i]
\* the arrangements of directions on a full path, as colourings of Coloring.tla
Arrangements(p) ==
    LET dirs(s) == IF ColourAt(p, s) \in arrowed THEN 1..D ELSE {0}
        f == {x \in [1..N -> 0..D] : \A s \in 0..N-1 : x[s + 1] \in dirs(s)}
    IN {[j \in 1..N |-> 7 * ColourAt(p, j - 1) + x[j]] : x \in f}
RECURSIVE Less(_, _)
Less(x, y) == x # <<>> /\ (Head(x) < Head(y) \/ (Head(x) = Head(y) /\ Less(Tail(x), Tail(y))))
SmallestArr(p) == LET S == Stab(p) IN {x \in Arrangements(p) : \A g \in S : ~Less(Act(g, x), x)}

TInit == /\ grp \in Groups /\ concs \in Compositions
         /\ \E A \in SUBSET (1..MaxColours) : (A \subseteq DOMAIN concs) /\ arrowed = A
         /\ path = <<>> /\ todo = <<kSubset(concs[1], 0..N-1)>> /\ leaves = {} /\ visited = 0
Level == Len(todo)
\* the next candidate of the deepest level
Follow == /\ Level > 0 /\ todo[Level] # {}
          /\ LET S == First(todo[Level])
                 p == SubSeq(path, 1, Level - 1)
                 rest == [todo EXCEPT ![Level] = @ \ {S}]
                 q == Append(p, S)
             IN /\ visited' = visited + 1
                /\ IF ~Smallest(p, S) THEN path' = p /\ todo' = rest /\ UNCHANGED leaves
                   ELSE IF Full(q) THEN path' = p /\ todo' = rest /\ leaves' = leaves \cup SmallestArr(q)
                   ELSE path' = q /\ todo' = Append(rest, Candidates(q)) /\ UNCHANGED leaves
          /\ UNCHANGED <<grp, concs, arrowed>>
Back == /\ Level > 0 /\ todo[Level] = {}
        /\ todo' = SubSeq(todo, 1, Level - 1) /\ path' = SubSeq(path, 1, MaxV(0, Level - 2))
        /\ UNCHANGED <<grp, concs, arrowed, leaves, visited>>
TNext == Follow \/ Back
TSpec == TInit /\ [][TNext]_tv
Done == Level = 0
---------------------------------------------------------------------------
GSeq == SetToSeq(grp)
Cols == [i \in DOMAIN concs |-> <<i, IF i \in arrowed THEN 1 ELSE 0>>]
Everything == UNION {Arrangements(p) : p \in {q \in [DOMAIN concs -> SUBSET (0..N-1)] :
                 (\A i \in DOMAIN concs : Cardinality(q[i]) = concs[i]) /\ UNION Range1(q) = 0..N-1}}
PathOK == \A i, j \in DOMAIN path : i # j => path[i] \cap path[j] = {}
Palette == \A x \in leaves : HasPalette(x, Cols, concs) /\ DirsOK(x, D)
Inequivalent == \A x \in leaves : Orbit(GSeq, x) \cap leaves = {x}
Complete == Done => UNION {Orbit(GSeq, x) : x \in leaves} = Everything
\* the orbits add up to all colourings, and Burnside's sum is their number
CountedOnce == Done => SumOver(leaves, LAMBDA x : Cardinality(Orbit(GSeq, x))) = NumColourings(Cols, concs, D)
Burnside == Done => Cardinality(leaves) * Cardinality(grp) = SumFix(Classes(GSeq), Cols, concs, 1000003)
\* pruning: no more nodes than partial colourings, and never a node below a rejected one
Bounded == visited <= SumSeq([i \in DOMAIN concs |-> Multinom(SubSeq(concs, 1, i) \o <<N - SumSeq(SubSeq(concs, 1, i))>>)])
=============================================================================
