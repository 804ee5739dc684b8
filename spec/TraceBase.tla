----------------------------- MODULE TraceBase -----------------------------
(* Every conformance run: each recorded case is one initial state, judging  *)
(* it is one transition, and the verdict (the set of names of the clauses   *)
(* of the specification that the recorded behaviour does not satisfy) is    *)
(* total: no case is left without one.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Judge(_)
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES case, verdict
vars == <<case, verdict>>
TInit == case \in 1..Len(Cases) /\ verdict = {"pending"}
TNext == /\ verdict = {"pending"}
         /\ verdict' = Judge(Cases[case])
         /\ case' = case
         /\ PrintT(<<"VERDICT", case, verdict'>>)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
