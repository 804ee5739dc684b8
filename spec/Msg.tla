-------------------------------- MODULE Msg --------------------------------
(* Messages: a state machine over the two global settings.                  *)
(* verbosity: "none", "all" or a number as a string-free tagged pair, i.e.  *)
(* <<"none">>, <<"all">>, <<"num", k>>;  quiet: "none", "on", "off".        *)
EXTENDS Integers, Sequences
VARIABLES verbosity, quiet, printed
mvars == <<verbosity, quiet, printed>>

\* does a message of this level get through
Allowed(v, q, level) ==
    IF level = 1 THEN q # "on"
    ELSE \/ v[1] = "all"
         \/ v[1] = "num" /\ level <= v[2]
\* the kinds of message with their default level
DefaultLevel(kind) == CASE kind = "warn" -> 0 [] kind = "err" -> -1 [] kind = "blank" -> 2 [] OTHER -> 1
Shown(v, q, kind, level) == Allowed(v, q, level) \/ (kind = "err" /\ v[1] = "none")

MInit == verbosity = <<"none">> /\ quiet = "none" /\ printed = FALSE
SetVerbosity(v) == verbosity' = v /\ printed' = FALSE /\ UNCHANGED quiet
SetQuiet(q) == quiet' = q /\ printed' = FALSE /\ UNCHANGED verbosity
Say(kind, level) == printed' = Shown(verbosity, quiet, kind, level) /\ UNCHANGED <<verbosity, quiet>>
=============================================================================
