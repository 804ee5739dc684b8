------------------------------- MODULE T_C06 -------------------------------
(* Symmetry-distinct supercells.                                            *)
EXTENDS TraceBase, Lattice
OrbitOf(h, rots) == {ColHNF(MM(U, Full(h))) : U \in rots}
JudgeC06(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET all  == HNFs(e.n)
             rots == TLCEval({op[1] : op \in SpaceGroup(e.G, e.D, e.types, e.q)})
             got  == e.hnfs
             valid == e.upper_zero /\ \A k \in DOMAIN got : got[k] \in all
         IN IF ~valid THEN {"only_valid"}
            ELSE LET orbs == TLCEval([k \in DOMAIN got |-> OrbitOf(got[k], rots)])
                     tot  == SumOver(DOMAIN got, LAMBDA k : Cardinality(orbs[k]))
                     un   == UNION {orbs[k] : k \in DOMAIN got}
                 IN Fails([no_two_equivalent |-> tot = Cardinality(un),
                           none_missing |-> un = all,
                           lattice_unchanged |-> e.lat_same])
=============================================================================
