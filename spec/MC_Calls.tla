------------------------------ MODULE MC_Calls ------------------------------
(* Sessions over a catalogue of calls (IOEnv.CATALOG: one record            *)
(* [id, fam, rng] per line) or, for model checking, a small one.            *)
EXTENDS Calls, Json, IOUtils, FiniteSetsExt
CONSTANTS Depth, Draws, Fams
VARIABLES st, hist, fams, done
cv == <<st, hist, fams, done>>
Catalog == IF "CATALOG" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.CATALOG)
           ELSE << [id |-> "f1", fam |-> "f", rng |-> "none"], [id |-> "f2", fam |-> "f", rng |-> "none"],
                   [id |-> "d", fam |-> "g", rng |-> "draws"], [id |-> "r", fam |-> "h", rng |-> "resets"] >>
AllFams == {Catalog[i].fam : i \in DOMAIN Catalog}
Acts(s) == {[op |-> "seed", seed |-> n] : n \in 1..2}
           \cup {[op |-> "scribble", i |-> i] : i \in {j \in DOMAIN s.held : s.held[j] # <<"scribbled">> /\ j > Len(s.held) - 2}}
           \cup {[op |-> "call", id |-> Catalog[i].id, rng |-> Catalog[i].rng] : i \in {j \in DOMAIN Catalog : Catalog[j].fam \in fams}}
CInit == /\ st = NewSession /\ hist = << >> /\ done = FALSE
         /\ fams \in kSubset(Fams, AllFams)
CNext == \/ /\ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist, fams>>
         \/ /\ Len(hist) < Depth /\ UNCHANGED <<fams, done>>
            /\ \E a \in Acts(st) : /\ Allowed(st, a)
                                   /\ (a.op = "call" /\ a.rng = "draws" => Len(st.rng) <= Draws)
                                   /\ st' = Step(st, a)
                                   /\ hist' = Append(hist, [a |-> a, tag |-> IF a.op = "call" THEN Result(st, a) ELSE <<>>])
CSpec == CInit /\ [][CNext]_cv
Calls(h) == {i \in DOMAIN h : h[i].a.op = "call"}
\* the same call without random numbers always gives the same
Stable == \A i, j \in Calls(hist) : hist[i].a = hist[j].a /\ hist[i].a.rng # "draws" => hist[i].tag = hist[j].tag
\* two calls with random numbers give the same when the same seed was set and the same calls drew since
LastSeed(i) == CHOOSE s \in {0} \cup {j \in 1..i : hist[j].a.op = "seed"} : \A t \in {j \in 1..i : hist[j].a.op = "seed"} : t <= s
DrewSince(i) == SelectSeq([j \in 1..(i - 1 - LastSeed(i)) |-> hist[LastSeed(i) + j].a], LAMBDA a : a.op = "call" /\ a.rng = "draws")
Seeded == \A i, j \in Calls(hist) :
             /\ hist[i].a.rng = "draws" => LastSeed(i) > 0
             /\ (hist[i].a = hist[j].a /\ hist[i].a.rng = "draws" /\ hist[LastSeed(i)].a = hist[LastSeed(j)].a /\ DrewSince(i) = DrewSince(j))
                => hist[i].tag = hist[j].tag
\* scribbling never changes what a later call gives: the state without it is the same
NoEcho == Len(st.held) = Cardinality(Calls(hist))
Emit == IF done /\ "GEN" \in DOMAIN IOEnv THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
=============================================================================
