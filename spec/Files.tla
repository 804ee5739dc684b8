-------------------------------- MODULE Files --------------------------------
(* What the input files mean.  A file is a sequence of lines [c, t]: c says *)
(* that it is a comment or blank, t is the sequence of its words; a word is *)
(* [k, v, r], k = "n" for a number of v/10000 + r/10^12, otherwise k is the *)
(* word itself.                                                             *)
EXTENDS PhLib
DataLines(f) == SelectSeq(f, LAMBDA l : ~l.c)
Vals(l) == [i \in DOMAIN l.t |-> l.t[i].v]
\* numbers with all their digits, and when two lists of them say the same
Fine(l) == [i \in DOMAIN l.t |-> <<l.t[i].v, l.t[i].r>>]
SameNum(a, b) == a[1] - b[1] \in -1..1 /\ AbsV((a[1] - b[1]) * 100000000 + (a[2] - b[2])) <= 1000
SameNums(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameNum(a[i], b[i])
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SameNums(a[i], b[i])
Whole(l) == [i \in DOMAIN l.t |-> l.t[i].v \div 10000]
\* the parent crystal and the limits of an enumeration
LatticeIn(f) ==
    LET d == DataLines(f)
        nb == Whole(d[7])[1]
        restricted == d[8 + nb].t[1].k # "F"
        disp == restricted /\ d[9 + nb].t[1].k # "F"
        k == Whole(d[6])[1]
        rows == IF restricted THEN [i \in 1..k |-> Vals(d[9 + nb + i])] ELSE <<>>
        fines == IF restricted THEN [i \in 1..k |-> Fine(d[9 + nb + i])] ELSE <<>>
    IN [sizes |-> Whole(d[1]), bulk |-> d[2].t[1].k \in {"b", "B"}, lat |-> [i \in 1..3 |-> Fine(d[2 + i])], k |-> k,
        basis |-> [i \in 1..nb |-> Fine(d[7 + i])], restricted |-> restricted, disp |-> disp,
        win |-> [i \in DOMAIN rows |-> <<rows[i][1], rows[i][2], rows[i][3]>>],
        fr |-> [i \in 1..k |-> IF disp /\ Len(rows[i]) = 4 THEN fines[i][4] ELSE <<0, 0>>]]
\* a request: supercell, composition, number
EnumIn(f) == LET d == DataLines(f) IN
    [i \in DOMAIN d |-> LET w == Whole(d[i]) n == Len(w) IN [h |-> SubSeq(w, 1, 6), conc |-> SubSeq(w, 7, n - 1), num |-> w[n]]]
\* a permutation group: six lines of text, then "Perm #: i Perm: ..." with lines continuing it
RECURSIVE Perms(_, _)
Perms(d, acc) == IF d = <<>> THEN acc
    ELSE LET l == Head(d) IN
         IF l.t[1].k = "Perm" THEN Perms(Tail(d), Append(acc, [i \in 1..Len(l.t) - 4 |-> Whole(l)[i + 4] - 1]))
         ELSE Perms(Tail(d), [acc EXCEPT ![Len(acc)] = @ \o [i \in DOMAIN l.t |-> Whole(l)[i] - 1]])
GroupFile(f) == Perms(SubSeq(f, 7, Len(f)), <<>>)
\* the input of enum.x: title, kind, lattice, species, atoms with the species allowed on them, sizes
StructEnumIn(f) ==
    LET d == DataLines(f)
        nb == Whole(d[7])[1]
    IN [sizes |-> Whole(d[8 + nb]), bulk |-> d[2].t[1].k \in {"b", "B"}, lat |-> [i \in 1..3 |-> Fine(d[2 + i])], k |-> Whole(d[6])[1],
        basis |-> [i \in 1..nb |-> SubSeq(Fine(d[7 + i]), 1, 3)], occ |-> [i \in 1..nb |-> d[7 + i].t[4].k], full |-> d[10 + nb].t[1].k]
=============================================================================
