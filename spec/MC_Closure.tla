----------------------------- MODULE MC_Closure -----------------------------
(* Generators are expanded round by round: everything found is followed by  *)
(* every generator until nothing new turns up.  One run for every pair of   *)
(* generators; nothing but multiplication is used, inverses and the neutral *)
(* element have to come by themselves.                                      *)
EXTENDS Coloring
CONSTANTS N, D
VARIABLES gens, found, rounds
cv == <<gens, found, rounds>>
Perms(n) == {p \in [1..n -> 0..n-1] : \A i, j \in 1..n : p[i] = p[j] => i = j}
Elements == Perms(N) \X Perms(D)
CInit == /\ \E g, h \in Elements : gens = {g, h}
         /\ found = gens /\ rounds = 0
New == {Compose(h, g) : g \in gens, h \in found} \ found
Round == New # {} /\ found' = found \cup New /\ rounds' = rounds + 1 /\ UNCHANGED gens
CSpec == CInit /\ [][Round]_cv
Done == New = {}
Inside == found \subseteq Generated(gens, N, D)
Group == Done => /\ IsGroup(found) /\ IdEl(N, D) \in found
                 /\ \A g \in found : \E h \in found : Compose(g, h) = IdEl(N, D)
                 /\ found = Generated(gens, N, D)
Lagrange == Done => (Fact(N) * Fact(D)) % Cardinality(found) = 0
Short == rounds < Fact(N) * Fact(D)
=============================================================================
