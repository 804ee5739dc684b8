------------------------------- MODULE T_C22 -------------------------------
(* An MTP configuration file: e.blocks in file order, one per selected      *)
(* structure (e.structs), after the blocks that were there before.          *)
EXTENDS TraceBase, Placed
Out(e, c) == IF Len(e.map) = 0 THEN c ELSE e.map[c + 1]
\* the species of label c among the labels, for a species number written out
Back(e, t) == {c \in 0..e.k-1 : Out(e, c) = t}
Block(e, s, b) ==
    LET f == [slv |-> b.slv] @@ s @@ e IN
    IF \E i \in DOMAIN b.atoms : Back(e, b.atoms[i].sp) = {} THEN {"species_number"}
    ELSE Fails([
        size |-> b.size = PN(f) * Len(e.D) /\ Len(b.atoms) = b.size,
        ids |-> \A i \in DOMAIN b.atoms : b.atoms[i].id = i,
        supercell |-> Supercell(f),
        basis |-> IF e.mink THEN ReducedRows(f, b.slv) ELSE b.slv = Tr(Full(s.h)),
        atoms |-> PlacedLoose(f, [i \in DOMAIN b.atoms |-> [p |-> b.atoms[i].p, sp |-> CHOOSE c \in Back(e, b.atoms[i].sp) : TRUE]]),
        number |-> b.num = s.num])
JudgeC22(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE IF Len(e.blocks) # Len(e.structs) THEN {"blocks"}
    ELSE UNION {Block(e, e.structs[i], e.blocks[i]) : i \in DOMAIN e.structs} \cup Fails([appended |-> e.kept])
=============================================================================
