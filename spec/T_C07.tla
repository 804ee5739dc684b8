------------------------------- MODULE T_C07 -------------------------------
(* Smith normal form: a relation between input and output, checked exactly. *)
(* The transforms may exceed TLC's 32 bits, so they arrive as residues       *)
(* modulo twenty primes whose product (10^90) exceeds the largest value      *)
(* either side of the identities can take, which makes the check exact.     *)
EXTENDS TraceBase, PhLib
Primes == <<32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653, 32647, 32633, 32621,
            32611, 32609, 32603, 32587, 32579, 32573, 32569, 32563, 32561>>
PK == 1..Len(Primes)
MMod(M, p) == <<VMod(M[1], p), VMod(M[2], p), VMod(M[3], p)>>
DotM(u, v, p) == (((u[1]*v[1]) % p) + ((u[2]*v[2]) % p) + ((u[3]*v[3]) % p)) % p
MMM(M, N, p) == LET t == Tr(N) IN [i \in 1..3 |-> [j \in 1..3 |-> DotM(M[i], t[j], p)]]
DetMod(M, p) == LET d(a, b, c, e) == (((a*b) % p) - ((c*e) % p)) % p
                IN DotM(M[1], <<d(M[2][2], M[3][3], M[2][3], M[3][2]),
                                d(M[2][3], M[3][1], M[2][1], M[3][3]),
                                d(M[2][1], M[3][2], M[2][2], M[3][1])>>, p)
UniMod(Mr) == \E s \in {1, -1} : \A k \in PK : DetMod(Mr[k], Primes[k]) = s % Primes[k]
ProductOK(Ar, H, Br, M) == \A k \in PK : LET p == Primes[k] IN
    MMM(TLCEval(MMM(Ar[k], MMod(H, p), p)), Br[k], p) = MMod(M, p)
JudgeC07(e) ==
    IF e.bad THEN Fails([refused |-> e.st = "err:ValueError"])
    ELSE IF e.st # "ok" THEN {"status"}
    ELSE LET M == e.M H == e.H IN
         Fails([product |-> ProductOK(e.Ar, H, e.Br, M),
                left_unimodular |-> UniMod(e.Ar),
                right_unimodular |-> UniMod(e.Br),
                diagonal |-> \A i, j \in 1..3 : i # j => M[i][j] = 0,
                positive |-> \A i \in 1..3 : M[i][i] > 0,
                divides |-> /\ M[1][1] > 0 => M[2][2] % M[1][1] = 0
                            /\ M[2][2] > 0 => M[3][3] % M[2][2] = 0,
                input_unchanged |-> e.same])
=============================================================================
