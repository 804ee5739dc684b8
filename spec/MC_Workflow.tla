----------------------------- MODULE MC_Workflow -----------------------------
(* All sequences of commands from all starting points.                      *)
EXTENDS Workflow, Json, IOUtils, Randomization
CONSTANTS Depth, Small
VARIABLES st, hist, before, done
wv == <<st, hist, before, done>>
none == [n \in Sizes |-> "none"]
TabStarts == {none, [none EXCEPT ![3] = "user"], [none EXCEPT ![1] = "user"], [none EXCEPT ![1] = "p1", ![2] = "p1"]}
Starts == {[lat |-> l, tabs |-> ("polya.out" :> a @@ "tab" :> b),
            req |-> ("enum.in" :> r @@ "my.in" :> q @@ "dist.in" :> <<"none">>), out |-> ("enum.out" :> o @@ "my.out" :> <<"none">>)] :
            l \in (IF Small THEN 0..1 ELSE 0..3), a \in TabStarts, b \in IF Small THEN {none} ELSE {none, [none EXCEPT ![3] = "user"]},
            r \in {<<"none">>, <<"user">>, <<"bad">>}, q \in (IF Small THEN {<<"none">>} ELSE {<<"none">>, <<"user">>}), o \in {<<"none">>, <<"old">>}}
SizeOpts == {<<>>, <<1, 3>>, <<3, 4>>, <<2, 4>>}
Filters == {"", "shape", "conc"}
Dists == {[op |-> "dist", base |-> b, over |-> "all", number |-> n, save |-> s, req |-> r, sizes |-> z, filter |-> f, polya |-> FALSE] :
             b \in Bases, n \in {-1, 3}, s \in BOOLEAN, r \in {"enum.in", "my.in"}, z \in SizeOpts, f \in Filters}
         \cup {[op |-> "dist", base |-> b, over |-> o, number |-> n, save |-> s, req |-> "dist.in", sizes |-> z, filter |-> f, polya |-> FALSE] :
             b \in Bases, o \in {"size", "shape", "conc"}, n \in {-1, 3}, s \in BOOLEAN, z \in SizeOpts, f \in Filters}
         \cup {[op |-> "dist", base |-> "polya.out", over |-> o, number |-> n, save |-> FALSE, req |-> "enum.in", sizes |-> z, filter |-> "", polya |-> TRUE] :
             o \in {"all", "conc"}, n \in {-1, 3}, z \in SizeOpts}
Enums == {[op |-> "enum", req |-> r, over |-> "all", number |-> n, out |-> o, super |-> u, sizes |-> z, filter |-> f, polya |-> FALSE] :
             r \in {"enum.in", "my.in"}, n \in {-1, 4}, o \in Outs, u \in BOOLEAN, z \in SizeOpts, f \in Filters}
         \cup {[op |-> "enum", req |-> r, over |-> "all", number |-> n, out |-> "enum.out", super |-> u, sizes |-> z, filter |-> "", polya |-> TRUE] :
             r \in {"enum.in", "my.in"}, n \in {-1, 4}, u \in BOOLEAN, z \in SizeOpts}
Plain(c) == c.sizes = <<>> /\ c.filter = "" /\ ~c.polya
Others == {[op |-> "polya", base |-> b] : b \in Bases}
          \cup {[op |-> "setlat", lat |-> l] : l \in (IF Small THEN 0..1 ELSE 0..3)} \cup {[op |-> "rmreq", req |-> r] : r \in {"enum.in", "my.in"}}
          \cup {[op |-> "rmtabs", base |-> b] : b \in Bases}
Cmds == Others \cup Dists \cup Enums
SmallCmds == {c \in Cmds : /\ (c.op \in {"polya", "dist", "rmtabs"} => c.base = "polya.out")
                           /\ (c.op = "dist" => c.number = -1 /\ c.over \in {"all", "size"} /\ c.req # "my.in" /\ c.filter = "" /\ c.sizes = <<>> /\ (c.polya => c.over = "all"))
                           /\ (c.op = "enum" => c.number = -1 /\ c.req = "enum.in" /\ c.out = "enum.out" /\ c.filter = "" /\ (IF c.polya THEN c.sizes = <<>> /\ ~c.super ELSE c.sizes = <<>> \/ c.sizes = <<1, 3>>))
                           /\ (c.op = "rmreq" => c.req = "enum.in")}
\* a walk (a sample of the commands in every step) or all of them
Choices == IF Small THEN SmallCmds ELSE IF "GEN" \in DOMAIN IOEnv THEN Others \cup RandomSubset(20, Dists) \cup RandomSubset(20, Enums) \cup {c \in RandomSubset(60, Dists \cup Enums) : c.polya \/ Plain(c)} ELSE Cmds
WInit == st \in Starts /\ hist = <<[c |-> [op |-> "start"], ok |-> TRUE, s |-> st]>> /\ before = st /\ done = FALSE
WNext == \/ /\ Len(hist) = Depth + 1 /\ ~done /\ done' = TRUE /\ UNCHANGED <<st, hist, before>>
         \/ /\ Len(hist) <= Depth /\ UNCHANGED done
            /\ \E c \in Choices : Covered(st, c) = TRUE /\
                 LET r == Step(st, c) IN /\ st' = r.s /\ before' = st /\ hist' = Append(hist, [c |-> c, ok |-> r.ok, s |-> r.s])
WSpec == WInit /\ [][WNext]_wv
Now == hist[Len(hist)]
\* a command that fails leaves everything as it was
FailureLeavesAlone == ~Now.ok => st = before
\* the input file is never written
InputKept == IsCommand(Now.c) => st.lat = before.lat
\* only polya replaces tables; the others make them where there are none
TablesKept == IsCommand(Now.c) /\ Now.c.op # "polya" /\ ~(Now.c.op \in {"dist", "enum"} /\ Now.c.polya) => \A b \in Bases : HasTabs(before, b) => st.tabs[b] = before.tabs[b]
\* a request that is there is used, not replaced, by enum; a structure file always belongs to what is there
RequestKept == Now.c.op = "enum" => \A f \in Reqs : before.req[f] # <<"none">> => st.req[f] = before.req[f]
OutBelongs == Now.c.op = "enum" /\ Now.ok => SubSeq(st.out[Now.c.out], 1, 4) = <<"enum", st.lat, st.req[Now.c.req], Now.c.super>>
OthersKept == Now.c.op = "enum" => \A f \in Outs \ {Now.c.out} : st.out[f] = before.out[f]
Same(s) == [s EXCEPT !.out = [f \in Outs |-> IF Len(s.out[f]) = 5 THEN SubSeq(s.out[f], 1, 4) ELSE s.out[f]]]
\* repeating a command changes nothing more
Repeatable == IsCommand(Now.c) /\ Now.ok /\ Covered(st, Now.c) => LET r == Step(st, Now.c) IN r.ok /\ Same(r.s) = Same(st)
NothingVanishes == IsCommand(Now.c) => /\ \A f \in Reqs : before.req[f] # <<"none">> => st.req[f] # <<"none">>
                                       /\ \A f \in Outs : before.out[f] # <<"none">> => st.out[f] # <<"none">>
\* from a readable input file enum always succeeds unless the request is unreadable
Progress == Now.c.op = "enum" /\ Readable(before) /\ before.req[Now.c.req] # <<"bad">> /\ Now.c.sizes = <<>> => Now.ok
\* the invariants look at one step only, states that differ in the earlier history are the same for them
StepView == <<st, before, Now, done>>
Emit == IF done /\ "GEN" \in DOMAIN IOEnv THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
=============================================================================
