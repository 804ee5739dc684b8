----------------------------- MODULE MC_MakeStr -----------------------------
(* Every sequence of commands; with GEN set, TLC prints the behaviours it   *)
(* explores so that they can be replayed into the real code.                *)
EXTENDS MakeStr, Json, IOUtils
CONSTANTS N, K, Depth
VARIABLES files, hist, before, done
mv == <<files, hist, before, done>>
Sels == {[kind |-> "all", a |-> 0, b |-> 0], [kind |-> "bad", a |-> 0, b |-> 0]}
        \cup {[kind |-> "one", a |-> a, b |-> 0] : a \in {0, 1, N, N + 2}}
        \cup {[kind |-> "two", a |-> a, b |-> b] : a \in {0, 2}, b \in {1, 2, N, N + 3}}
Outs == {[cfg |-> FALSE, pre |-> "vasp.", post |-> "", pat |-> TRUE], [cfg |-> FALSE, pre |-> "s", post |-> ".vasp", pat |-> TRUE],
         [cfg |-> FALSE, pre |-> "POSCAR", post |-> "", pat |-> FALSE], [cfg |-> TRUE, pre |-> "to.cfg", post |-> "", pat |-> FALSE],
         [cfg |-> TRUE, pre |-> "b.cfg", post |-> "", pat |-> FALSE]}
Cmds == {s @@ o @@ [nsp |-> x] : s \in Sels, o \in Outs, x \in {0, K, K + 1}}
MInit == files = {} /\ hist = <<>> /\ before = {} /\ done = FALSE
MNext == \/ /\ Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<files, hist, before>>
         \/ /\ Len(hist) < Depth /\ UNCHANGED done
            /\ \E c \in Cmds : /\ files' = Step(files, c, N, K)
                            /\ hist' = Append(hist, c)
                            /\ before' = files
MSpec == MInit /\ [][MNext]_mv
Cur == hist[Len(hist)]
OneFilePerName == \A f, g \in files : f.name = g.name => f = g
OnlyExisting == \A f \in files : f.nums # <<>> /\ \A i \in DOMAIN f.nums : f.nums[i] \in 1..N
NothingLost == \A f \in before : \E g \in files : g.name = f.name
RefusedLeavesAlone == Len(hist) > 0 /\ Refused(Cur, N, K) => files = before
SelectedIsThere == Len(hist) > 0 /\ ~Refused(Cur, N, K) => \A n \in Wanted(Cur, N) :
    \E f \in files : f.type = (IF Cur.cfg THEN "cfg" ELSE "poscar") /\ \E i \in DOMAIN f.nums : f.nums[i] = n
NamedAfterNumber == \A f \in files : f.type = "poscar" => Len(f.nums) = 1
OthersKept == \A f \in before : (f \in files \/ (Len(hist) > 0 /\ \E n \in Wanted(Cur, N) : f.name \in {NameOf(Cur, n), Cur.pre}))
Emit == IF done /\ "GEN" \in DOMAIN IOEnv THEN PrintT(<<"BEHAVIOUR", ToJson(hist)>>) ELSE TRUE
=============================================================================
