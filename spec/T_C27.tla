------------------------------- MODULE T_C27 -------------------------------
(* Reading files: e.what, e.lines, and what the library made of it.         *)
EXTENDS TraceBase, Files
RECURSIVE OccText(_, _)
OccText(i, k) == IF i = k - 1 THEN ToString(i) ELSE ToString(i) \o "/" \o OccText(i + 1, k)
JudgeC27(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE CASE e.what = "lattice" ->
              LET m == LatticeIn(e.lines)
                  s == StructEnumIn(e.struct)
              IN Fails([sizes |-> e.out.sizes = m.sizes, bulk |-> e.out.bulk = m.bulk, lattice |-> SameRows(e.out.lat, m.lat),
                        species |-> e.out.k = m.k, basis |-> SameRows(e.out.basis, m.basis), restricted |-> e.out.restricted = m.restricted,
                        displaced |-> e.out.disp = m.disp, windows |-> e.out.win = m.win, fractions |-> SameNums(e.out.fr, m.fr),
                        struct_enum |-> /\ s.sizes = m.sizes /\ s.bulk = m.bulk /\ SameRows(s.lat, m.lat) /\ s.k = m.k /\ SameRows(s.basis, m.basis)
                                        /\ \A i \in DOMAIN s.occ : s.occ[i] = OccText(0, m.k)
                                        /\ s.full = "full"])
           [] e.what = "enum" -> Fails([request |-> e.out = EnumIn(e.lines)])
           [] e.what = "group" -> Fails([group |-> e.out = GroupFile(e.lines)])
=============================================================================
