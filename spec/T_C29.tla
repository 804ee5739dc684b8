------------------------------- MODULE T_C29 -------------------------------
(* A recorded run of settings and messages must be a behaviour of Msg:      *)
(* e.steps[i] = <<action, argument, level, printed text as expected text    *)
(* number, settings afterwards>>.                                           *)
EXTENDS TraceBase, PhLib
VARIABLES verbosity, quiet, printed
M == INSTANCE Msg
\* settings after the first k steps
RECURSIVE After(_, _)
After(e, k) == IF k = 0 THEN [v |-> e.v0, q |-> e.q0]
               ELSE LET s == e.steps[k] p == After(e, k - 1) IN
                    CASE s.act = "verbosity" -> [p EXCEPT !.v = s.val]
                      [] s.act = "quiet" -> [p EXCEPT !.q = s.val]
                      [] OTHER -> p
StepFails(e, k) ==
    LET s == e.steps[k] p == After(e, k - 1) IN
    Fails([settings |-> LET w == After(e, k) IN s.v = w.v /\ s.q = w.q,
           shown |-> s.act \in {"verbosity", "quiet"} \/
                     s.got = (IF M!Shown(p.v, p.q, s.act, IF s.default THEN M!DefaultLevel(s.act) ELSE s.level)
                              THEN s.text ELSE ""),
           asked |-> s.act \in {"verbosity", "quiet"} \/ s.default \/ s.will = M!Allowed(p.v, p.q, s.level)])
JudgeC29(e) == IF e.st # "ok" THEN {"status"} ELSE UNION {StepFails(e, k) : k \in DOMAIN e.steps}
XInit == TInit /\ verbosity = 0 /\ quiet = 0 /\ printed = 0
XNext == TNext /\ UNCHANGED <<verbosity, quiet, printed>>
XSpec == XInit /\ [][XNext]_<<vars, verbosity, quiet, printed>>
=============================================================================
