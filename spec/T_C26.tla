------------------------------- MODULE T_C26 -------------------------------
(* A session of calls: e.hist the actions with the predicted tags, e.obs    *)
(* what was seen (digest of each result, arguments that changed, results    *)
(* held from before that changed), e.refs the digest of each tag when made  *)
(* in a new process.                                                        *)
EXTENDS TraceBase, Calls
RECURSIVE Run(_, _)
Run(h, n) == IF n = 0 THEN NewSession ELSE Step(Run(h, n - 1), h[n].a)
JudgeC26(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET H == e.hist
             Tag(i) == IF H[i].a.op = "call" THEN Result(Run(H, i - 1), H[i].a) ELSE <<>>
             Ref(t) == {e.refs[r].d : r \in {q \in DOMAIN e.refs : e.refs[q].tag = t}}
         IN UNION {  (IF Allowed(Run(H, i - 1), H[i].a) /\ (H[i].a.op = "call" => H[i].tag = Tag(i)) THEN {} ELSE {"model"})
                \cup (IF H[i].a.op = "call" => Ref(Tag(i)) = {e.obs[i].d} THEN {} ELSE {"result"})
                \cup (IF e.obs[i].args = <<>> THEN {} ELSE {"arguments"})
                \cup (IF e.obs[i].held = <<>> THEN {} ELSE {"earlier-results"}) : i \in DOMAIN H}
=============================================================================
