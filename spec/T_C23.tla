------------------------------- MODULE T_C23 -------------------------------
(* A history of structure commands in one folder, and what it left there    *)
(* after each.                                                              *)
EXTENDS TraceBase, MakeStr
Range2(s) == {s[i] : i \in DOMAIN s}
RECURSIVE After(_, _)
After(e, i) == IF i = 0 THEN Range2(e.init) ELSE Step(After(e, i - 1), e.cmds[i], e.N, e.k)
FailsIn(cl) == {x \in DOMAIN cl : ~cl[x]}
JudgeC23(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE FailsIn([
        files |-> \A i \in DOMAIN e.steps : Range2(e.steps[i].files) = After(e, i),
        refused |-> \A i \in DOMAIN e.steps : (e.steps[i].st = "err:ValueError") <=> Refused(e.cmds[i], e.N, e.k),
        completes |-> \A i \in DOMAIN e.steps : e.steps[i].st \in {"ok", "err:ValueError"}])
=============================================================================
