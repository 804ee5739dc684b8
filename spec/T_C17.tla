------------------------------- MODULE T_C17 -------------------------------
(* A history of commands (e.steps: command, outcome and state predicted by  *)
(* the model; the first entry is the start) and what was seen in the folder *)
(* after every step (e.obs: outcome, files that are not as in the predicted *)
(* state).                                                                  *)
EXTENDS TraceBase, Workflow
JudgeC17(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET S == e.steps
             \* the history is one of the specification
             model == \A i \in 2..Len(S) : LET r == Step(S[i-1].s, S[i].c) IN r.s = S[i].s /\ r.ok = S[i].ok
             n == Len(e.obs)
         IN (IF model THEN {} ELSE {"model"})
            \cup UNION {(IF e.obs[i].ok = S[i+1].ok THEN {} ELSE {"outcome-" \o S[i+1].c.op})
                        \cup (IF Len(e.obs[i].wrong) = 0 THEN {} ELSE {"files-" \o S[i+1].c.op}) : i \in 1..n}
            \cup (IF n = Len(S) - 1 \/ (n > 0 /\ (Len(e.obs[n].wrong) > 0 \/ e.obs[n].ok # S[n+1].ok)) THEN {} ELSE {"unfinished"})
=============================================================================
