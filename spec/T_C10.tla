------------------------------- MODULE T_C10 -------------------------------
(* Point group and space group of the parent crystal.                       *)
EXTENDS TraceBase, Lattice
\* the operations that leave the direction x of the surface normal in place (up to sign): U in lattice
\* coordinates, A the rows of the lattice; all numbers are multiplied by Det(A)
KeepsNormal(A, U) == LET R == MM(MM(Tr(A), U), Adj(Tr(A))) IN
    /\ R[1][2] = 0 /\ R[1][3] = 0 /\ R[2][1] = 0 /\ R[3][1] = 0
JudgeC10(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET pg == TLCEval(PointGroup(e.G))
             gotpg == Range1(e.pg)
             sg == TLCEval(SpaceGroup(e.G, e.D, e.types, e.q))
             gots == TLCEval([k \in DOMAIN e.sgU |-> <<e.sgU[k], VMod(e.sgT[k], e.q)>>])
             got == Range1(gots)
         IN Fails([pg_none_missing |-> pg \subseteq gotpg,
                   pg_none_invented |-> gotpg \subseteq pg,
                   pg_listed_once |-> Cardinality(gotpg) = Len(e.pg),
                   sg_none_missing |-> sg \subseteq got,
                   sg_none_invented |-> got \subseteq sg,
                   sg_listed_once |-> Cardinality(got) = Len(e.sgU),
                   surface |-> e.surf => Range1([k \in DOMAIN e.sfU |-> <<e.sfU[k], VMod(e.sfT[k], e.q)>>])
                                          = {o \in sg : KeepsNormal(e.A, o[1])} /\ Len(e.sfU) = Len(e.sfT),
                   identity |-> <<I3, <<0,0,0>> >> \in got])
=============================================================================
