------------------------------- MODULE MC_Msg -------------------------------
(* Consequences a user relies on, checked in every state.                   *)
EXTENDS Msg
Levels == -2..5
Kinds == {"warn", "err", "info", "okay", "gen", "blank", "std"}
Verbs == {<<"none">>, <<"all">>} \cup {<<"num", k>> : k \in -2..4}
Quiets == {"none", "on", "off"}
MNext == \/ \E v \in Verbs : SetVerbosity(v)
         \/ \E q \in Quiets : SetQuiet(q)
         \/ \E k \in Kinds, l \in Levels : Say(k, l)
MSpec == MInit /\ [][MNext]_mvars
OrdinaryUnlessQuiet == \A k \in Kinds \ {"err"} : Shown(verbosity, quiet, k, 1) <=> quiet # "on"
ErrorsByDefault == verbosity = <<"none">> => \A l \in Levels : Shown(verbosity, quiet, "err", l)
\* more verbosity never hides anything but an unconditional error
Monotone == \A a, b \in -2..4 : a <= b => \A k \in Kinds, l \in Levels :
               Shown(<<"num", a>>, quiet, k, l) => Shown(<<"num", b>>, quiet, k, l)
DetailNeedsVerbosity == verbosity = <<"none">> => \A k \in Kinds \ {"err"}, l \in Levels \ {1} : ~Shown(verbosity, quiet, k, l)
EverythingWhenAll == verbosity = <<"all">> => \A k \in Kinds, l \in Levels \ {1} : Shown(verbosity, quiet, k, l)
=============================================================================
