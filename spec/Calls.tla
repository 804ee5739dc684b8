------------------------------- MODULE Calls -------------------------------
(* A session of calls into the library.  What a call gives depends on its   *)
(* arguments, and for calls that use random numbers on the seed and the     *)
(* calls that used random numbers since; on nothing else.  Nothing that is  *)
(* passed in changes, and what was given back earlier stays as it is until  *)
(* the user changes it (scribbles over it), which in turn changes nothing   *)
(* that is given later.                                                     *)
(*   call:  [op, id, rng]  rng: "none", "draws", "resets" (sets its own     *)
(*          seed and leaves the generator in an unknown state)              *)
(*   state: rng   <<>> unknown, or <<seed, ids of the calls that drew>>     *)
(*          held  what was given back so far (the tag of the result, or     *)
(*                <<"scribbled">>)                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewSession == [rng |-> <<>>, held |-> <<>>]
Allowed(s, a) == CASE a.op = "call" -> a.rng = "draws" => Len(s.rng) > 0
                   [] a.op = "scribble" -> a.i \in DOMAIN s.held
                   [] OTHER -> TRUE
Result(s, a) == IF a.rng = "draws" THEN <<a.id, s.rng>> ELSE <<a.id, <<>> >>
Step(s, a) == CASE a.op = "seed" -> [s EXCEPT !.rng = <<a.seed>>]
                [] a.op = "scribble" -> [s EXCEPT !.held[a.i] = <<"scribbled">>]
                [] a.op = "call" -> [rng |-> CASE a.rng = "draws" -> Append(s.rng, a.id) [] a.rng = "resets" -> <<>> [] OTHER -> s.rng,
                                     held |-> Append(s.held, Result(s, a))]
=============================================================================
