------------------------------ MODULE Workflow ------------------------------
(* The commands and the files they read and write.  A file is represented   *)
(* by what it was made from:                                                *)
(*   lat            0 no input file, 1/2 two different ones, 3 unreadable   *)
(*   tabs[b][n]     Polya table of size n under base name b: "none", "user" *)
(*                  (put there by hand), "p1"/"p2" (from input file 1/2)    *)
(*   req[f]         request file f: <<"none">>, <<"user">>, <<"bad">> or    *)
(*                  <<"dist", over, number, tables it was made from,        *)
(*                    filter>>                                              *)
(*   out[f]         structure file f: <<"none">>, <<"old">> or              *)
(*                  <<"enum", input file, request, superperiodic kept,      *)
(*                    request made by the same command>>                    *)
(* (tables of sizes that were not asked for count as none in a request)     *)
(* (the last entry because the random numbers a seeded command draws for    *)
(* the request are not drawn when the request is there)                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bases == {"polya.out", "tab"}
Reqs == {"enum.in", "my.in", "dist.in"}
Outs == {"enum.out", "my.out"}
Sizes == 1..3
SizesOf(l) == IF l = 1 THEN {1, 2} ELSE {2, 3}
Readable(s) == s.lat \in {1, 2}
PTag(l) == IF l = 1 THEN "p1" ELSE "p2"
HasTabs(s, b) == \E n \in Sizes : s.tabs[b][n] # "none"
WithTabs(s, b) == [s EXCEPT !.tabs[b] = [n \in Sizes |-> IF n \in SizesOf(s.lat) THEN PTag(s.lat) ELSE @[n]]]
\* tables are made only where there are none
Ensure(s, b) == IF HasTabs(s, b) THEN s ELSE WithTabs(s, b)
CanEnsure(s, b) == HasTabs(s, b) \/ Readable(s)
\* -sizes start stop: the sizes from start up to, not including, stop; <<>> all sizes there are tables of
Chosen(t, sizes) == IF sizes = <<>> THEN t ELSE [n \in Sizes |-> IF n \in sizes[1]..(sizes[2] - 1) THEN t[n] ELSE "none"]
AllThere(t, sizes) == IF sizes = <<>> THEN TRUE ELSE \A n \in sizes[1]..(sizes[2] - 1) : t[n] # "none"
WithReq(s, f, b, c) == [s EXCEPT !.req[f] = <<"dist", c.over, c.number, Chosen(s.tabs[b], c.sizes), c.filter>>]

\* c.op: polya, dist, enum or an action of the user; result: [ok, s].  dist and enum with c.polya also rewrite the tables first
Fail(s) == [ok |-> FALSE, s |-> s]
Done(s) == [ok |-> TRUE, s |-> s]
Polya(s, c) == IF Readable(s) THEN Done(WithTabs(s, c.base)) ELSE Fail(s)
First(s, c) == IF c.polya THEN Polya(s, [base |-> "polya.out"]) ELSE Done(s)
Dist(s0, c) == LET p == First(s0, c) s == p.s
                   t == Ensure(s, c.base)
               IN IF ~p.ok \/ ~CanEnsure(s, c.base) THEN Fail(s0)
                  ELSE IF ~AllThere(t.tabs[c.base], c.sizes) THEN Fail(s0)
                  ELSE Done(IF c.over = "all" \/ c.save THEN WithReq(t, c.req, c.base, c) ELSE t)
Enum(s0, c) == LET p == First(s0, c) s == p.s
                   there == s.req[c.req] # <<"none">>
                   t == Ensure(s, "polya.out")
               IN IF ~p.ok \/ ~Readable(s) \/ s.req[c.req] = <<"bad">> THEN Fail(s0)
                  ELSE IF ~there /\ ~AllThere(t.tabs["polya.out"], c.sizes) THEN Fail(s0)
                  ELSE LET u == IF there THEN s ELSE WithReq(t, c.req, "polya.out", [c EXCEPT !.over = "all"])
                       IN Done([u EXCEPT !.out[c.out] = <<"enum", u.lat, u.req[c.req], c.super, ~there>>])
\* not covered: a command that fails after it made tables (the tables stay)
Covered(s, c) == c.op \in {"dist", "enum"} =>
                   LET b == IF c.op = "dist" THEN c.base ELSE "polya.out" IN
                   /\ c.polya /\ Readable(s) =>
                        /\ c.op = "enum" => s.req[c.req] # <<"bad">>
                        /\ (c.op = "dist" \/ s.req[c.req] = <<"none">>) => AllThere(WithTabs(s, b).tabs[b], c.sizes)
                   /\ ~c.polya /\ ~HasTabs(s, b) /\ Readable(s) /\ (c.op = "dist" \/ s.req[c.req] = <<"none">>) => AllThere(WithTabs(s, b).tabs[b], c.sizes)
Step(s, c) == CASE c.op = "polya" -> Polya(s, c)
                [] c.op = "dist" -> Dist(s, c)
                [] c.op = "enum" -> Enum(s, c)
                [] c.op = "setlat" -> Done([s EXCEPT !.lat = c.lat])
                [] c.op = "rmreq" -> Done([s EXCEPT !.req[c.req] = <<"none">>])
                [] c.op = "rmtabs" -> Done([s EXCEPT !.tabs[c.base] = [n \in Sizes |-> "none"]])
IsCommand(c) == c.op \in {"polya", "dist", "enum"}
=============================================================================
