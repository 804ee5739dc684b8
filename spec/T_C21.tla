------------------------------- MODULE T_C21 -------------------------------
(* A POSCAR file: e.slv supercell rows in parent coordinates, e.counts the  *)
(* counts line, e.pos the atom lines (Q-ths of the parent vectors), e.words *)
(* the words of the title, e.scale / e.want the scale line and the one that *)
(* belongs to the composition (hundredths).                                 *)
EXTENDS TraceBase, Placed
Cnt(e, c) == Count(e.lab, c)
\* the species the counts line speaks about
Listed(e) == IF e.rz /\ Len(e.species) > 0 THEN SelectSeq([i \in 1..e.k |-> i - 1], LAMBDA c : Cnt(e, c) > 0)
             ELSE [i \in 1..e.k |-> i - 1]
RECURSIVE Expand(_, _)
Expand(sp, cs) == IF cs = <<>> THEN <<>> ELSE [i \in 1..Head(cs) |-> Head(sp)] \o Expand(Tail(sp), Tail(cs))
JudgeC21(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF Len(e.counts) # Len(Listed(e)) THEN {"counts_line"}
    ELSE LET sp == Expand(Listed(e), e.counts) IN
    IF Len(sp) # Len(e.pos) THEN {"counts_match_lines"}
    ELSE Fails([
        counts |-> \A i \in DOMAIN e.counts : e.counts[i] = Cnt(e, Listed(e)[i]),
        direct |-> e.mode = "D",
        atoms |-> PlacedLoose(e, [i \in DOMAIN e.pos |-> [p |-> e.pos[i], sp |-> sp[i]]]),
        supercell |-> Supercell(e),
        basis |-> IF e.mink THEN ReducedRows(e, e.slv) ELSE e.slv = Tr(Full(e.h)),
        scale |-> e.scale = e.want,
        names |-> \/ Len(e.species) = 0
                  \/ SubSeq(e.words, 1, Len(Listed(e))) = [i \in DOMAIN Listed(e) |-> e.species[Listed(e)[i] + 1]],
        number |-> Len(e.words) > 0 /\ e.words[Len(e.words)] = ToString(e.num)])
=============================================================================
