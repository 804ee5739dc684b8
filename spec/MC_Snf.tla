------------------------------- MODULE MC_Snf -------------------------------
(* Diagonalising an integer matrix by elementary operations.  The column j  *)
(* is cleared by subtracting multiples of a row from another (and likewise  *)
(* the row j by columns), the smallest from the largest, whichever of equal *)
(* ones, but the pivot before another one that is as small (without that    *)
(* the search need not end: TLC finds runs in which the entries only grow); *)
(* the pivot goes to its place; an entry below that it does not divide is   *)
(* brought into its row.  Every such strategy ends, with the diagonal form, *)
(* and the transforms stay unimodular.                                      *)
EXTENDS Lattice
CONSTANTS MaxN,               \* Hermite forms up to this size, also with columns exchanged and
          E, MaxDet           \* all matrices with entries -E..E and a determinant in 2..MaxDet
VARIABLES H, M, A, B, j, ph, steps
sv == <<H, M, A, B, j, ph, steps>>
Mat == [1..3 -> (-E..E) \X (-E..E) \X (-E..E)]
AsM(f) == <<f[1], f[2], f[3]>>
Start == {Full(h) : h \in UNION {HNFs(n) : n \in 1..MaxN}}
SInit == /\ H \in Start \cup {Tr(<<Col(X, 2), Col(X, 3), Col(X, 1)>>) : X \in Start} \cup {X \in {AsM(f) : f \in Mat} : Det(X) \in 2..MaxDet}
         /\ M = H /\ A = I3 /\ B = I3 /\ j = 1 /\ ph = "col" /\ steps = 0
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
RowAdd(X, i, k, m) == [X EXCEPT ![i] = VAdd(@, VScale(m, X[k]))]
ColAdd(X, i, k, m) == Tr(RowAdd(Tr(X), i, k, m))
RowSwap(X, i, k) == [X EXCEPT ![i] = X[k], ![k] = X[i]]
ColSwap(X, i, k) == Tr(RowSwap(Tr(X), i, k))
\* the entry that is subtracted is one of the smallest, the one it is subtracted from one of the largest
Least(k, f) == f[k] # 0 /\ \A a \in DOMAIN f : f[a] # 0 => (AbsV(f[k]) <= AbsV(f[a]) /\ (a = j => (k = j \/ AbsV(f[k]) < AbsV(f[a]))))
Most(i, f) == \A a \in DOMAIN f : AbsV(f[a]) <= AbsV(f[i])
ColBusy == Cardinality({i \in j..3 : M[i][j] # 0}) > 1
RowBusy == Cardinality({i \in j..3 : M[j][i] # 0}) > 1
Step == steps' = steps + 1 /\ UNCHANGED H
ClearCol == /\ ph = "col" /\ ColBusy
            /\ \E i, k \in j..3 : /\ i # k /\ Least(k, [a \in j..3 |-> M[a][j]]) /\ Most(i, [a \in j..3 |-> M[a][j]])
                                  /\ LET q == -FloorDiv(M[i][j], M[k][j]) IN
                                     M' = RowAdd(M, i, k, q) /\ A' = RowAdd(A, i, k, q)
            /\ UNCHANGED <<B, j, ph>> /\ Step
PivotRow == /\ ph = "col" /\ ~ColBusy
            /\ LET i == IF M[j][j] # 0 THEN j ELSE CHOOSE i \in j+1..3 : M[i][j] # 0 IN M' = RowSwap(M, j, i) /\ A' = RowSwap(A, j, i)
            /\ ph' = "row" /\ UNCHANGED <<B, j>> /\ Step
ClearRow == /\ ph = "row" /\ RowBusy
            /\ \E i, k \in j..3 : /\ i # k /\ Least(k, [a \in j..3 |-> M[j][a]]) /\ Most(i, [a \in j..3 |-> M[j][a]])
                                  /\ LET q == -FloorDiv(M[j][i], M[j][k]) IN
                                     M' = ColAdd(M, i, k, q) /\ B' = ColAdd(B, i, k, q)
            /\ UNCHANGED <<A, j, ph>> /\ Step
PivotCol == /\ ph = "row" /\ ~RowBusy
            /\ LET i == IF M[j][j] # 0 THEN j ELSE CHOOSE i \in j+1..3 : M[j][i] # 0 IN M' = ColSwap(M, j, i) /\ B' = ColSwap(B, j, i)
            /\ ph' = "check" /\ UNCHANGED <<A, j>> /\ Step
Again == ph = "check" /\ ColBusy /\ ph' = "col" /\ UNCHANGED <<H, M, A, B, j, steps>>
Clean == ph = "check" /\ ~ColBusy /\ ~RowBusy
Positive == /\ Clean /\ M[j][j] < 0
            /\ M' = ColAdd(M, j, j, -2) /\ B' = ColAdd(B, j, j, -2)
            /\ UNCHANGED <<A, j, ph>> /\ Step
NotDividing == {i \in j+1..3 : \E k \in j+1..3 : M[i][k] % M[j][j] # 0}
BringIn == /\ Clean /\ M[j][j] > 0
           /\ \E i \in NotDividing : M' = RowAdd(M, j, i, 1) /\ A' = RowAdd(A, j, i, 1)
           /\ ph' = "col" /\ UNCHANGED <<B, j>> /\ Step
Next1 == /\ Clean /\ M[j][j] > 0 /\ NotDividing = {}
         /\ IF j = 3 THEN ph' = "end" /\ j' = j ELSE ph' = "col" /\ j' = j + 1
         /\ UNCHANGED <<H, M, A, B, steps>>
SNext == ClearCol \/ PivotRow \/ ClearRow \/ PivotCol \/ Again \/ Positive \/ BringIn \/ Next1
SSpec == SInit /\ [][SNext]_sv /\ WF_sv(SNext)
Done == ph = "end"
---------------------------------------------------------------------------
Product == MM(A, MM(H, B)) = M
Transforms == Unimodular(A) /\ Unimodular(B)
Volume == AbsV(Det(M)) = Det(H)
\* what has been cleared stays cleared
Cleared == \A a, b \in 1..3 : (a # b /\ (a < j \/ b < j \/ Done)) => M[a][b] = 0
Smith == Done => /\ \A i \in 1..3 : M[i][i] > 0
                 /\ (M[2][2] % M[1][1]) = 0 /\ (M[3][3] % M[2][2]) = 0
\* and it is the Smith form: invariant factors from the minors of H
G1 == FoldSeq(LAMBDA x, g : GcdV(x, g), 0, Entries(H))
G2 == FoldSeq(LAMBDA x, g : GcdV(x, g), 0, Entries(Adj(H)))
Invariants == Done => M[1][1] = G1 /\ M[1][1] * M[2][2] = G2 /\ ProdSeq([i \in 1..3 |-> M[i][i]]) = Det(H)
\* the only states without a successor are the final ones
Stuck == Done \/ ENABLED SNext
Few == steps <= 40
Ends == <>Done
=============================================================================
