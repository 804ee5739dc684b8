------------------------------ MODULE MakeStr ------------------------------
(* The structure command as a state machine over the files it writes.       *)
(* A command c: c.kind "all", "one" (c.a), "two" (c.a, c.b) or "bad";       *)
(* c.cfg: config file instead of POSCARs; c.pre, c.post, c.pat: output name *)
(* (with a {} between pre and post when c.pat); c.nsp: number of elements   *)
(* named, 0 for none.  A file is [name, type, nums].                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Wanted(c, N) == CASE c.kind = "all" -> 1..N
                  [] c.kind = "one" -> {c.a} \cap 1..N
                  [] c.kind = "two" -> (c.a .. c.b) \cap 1..N
                  [] OTHER -> {}
Refused(c, N, k) == c.kind = "bad" \/ (c.nsp # 0 /\ c.nsp # k /\ Wanted(c, N) # {})
NameOf(c, n) == IF c.pat THEN c.pre \o ToString(n) \o c.post ELSE c.pre \o c.post \o "." \o ToString(n)
Ascending(S) == SetToSortSeq(S, <)
Named(files, nm) == {f \in files : f.name = nm}
Content(files, nm) == IF Named(files, nm) = {} THEN <<>> ELSE (CHOOSE f \in Named(files, nm) : TRUE).nums
Without(files, names) == {f \in files : f.name \notin names}
Step(files, c, N, k) ==
    IF Refused(c, N, k) \/ Wanted(c, N) = {} THEN files
    ELSE IF c.cfg
    THEN Without(files, {c.pre}) \cup
         {[name |-> c.pre, type |-> "cfg", nums |-> Content(files, c.pre) \o Ascending(Wanted(c, N))]}
    ELSE Without(files, {NameOf(c, n) : n \in Wanted(c, N)}) \cup
         {[name |-> NameOf(c, n), type |-> "poscar", nums |-> <<n>>] : n \in Wanted(c, N)}
=============================================================================
