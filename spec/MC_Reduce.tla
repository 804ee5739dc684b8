----------------------------- MODULE MC_Reduce -----------------------------
(* Reducing a basis of three vectors: sort by length; reduce the plane of   *)
(* the two shorter ones (take the nearest multiple of the shorter from the  *)
(* longer, exchange, until it does not get shorter); bring the third one to *)
(* the corner, of the four around its projection on the plane, that leaves  *)
(* least of it; again while the third is then shorter than the second.      *)
(* Vectors are integer rows in a lattice with Gram matrix gram; ties are    *)
(* broken in every possible way.                                            *)
EXTENDS Lattice
CONSTANTS E, NGrams
VARIABLES gram, R, W, ph, outer, inner
rv == <<gram, R, W, ph, outer, inner>>
Grams == << I3, << <<2,1,1>>, <<1,2,1>>, <<1,1,2>> >>, << <<3,-1,-1>>, <<-1,3,-1>>, <<-1,-1,3>> >>,
            << <<2,-1,0>>, <<-1,2,0>>, <<0,0,5>> >>, << <<1,0,0>>, <<0,2,0>>, <<0,0,5>> >>,
            << <<4,0,1>>, <<0,5,0>>, <<1,0,7>> >>, << <<4,1,1>>, <<1,5,2>>, <<1,2,7>> >>, << <<4,1,1>>, <<1,4,1>>, <<1,1,4>> >> >>
IP(u, v) == Dot(u, MV(gram, v))
N2(v) == IP(v, v)
Row(k) == IF k = 1 THEN (0..E) \X (-E..E) \X (-E..E) ELSE (-E..E) \X (-E..E) \X (-E..E)
RInit == /\ \E k \in 1..NGrams : gram = Grams[k]
         /\ \E a \in Row(1), b \in Row(2), c \in Row(3) : /\ Det(<<a, b, c>>) > 0
                                                          /\ R = <<a, b, c>>
         /\ W = R /\ ph = "sort" /\ outer = 0 /\ inner = 0
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
Orders == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : p[i] = p[j] => i = j}
Sort == /\ ph = "sort"
        /\ \E p \in Orders : /\ N2(W[p[1]]) <= N2(W[p[2]]) /\ N2(W[p[2]]) <= N2(W[p[3]])
                             /\ W' = <<W[p[1]], W[p[2]], W[p[3]]>>
        /\ ph' = "plane" /\ inner' = 0 /\ outer' = outer + 1 /\ UNCHANGED <<gram, R>>
\* the nearest integers to a/b, b > 0
Nearest(a, b) == {m \in {FloorDiv(a, b), FloorDiv(a, b) + 1} : 2 * AbsV(a - m * b) <= b}
Plane == /\ ph = "plane"
         /\ \E m \in Nearest(IP(W[1], W[2]), N2(W[1])) :
               LET v == VSub(W[2], VScale(m, W[1])) IN
               IF N2(v) >= N2(W[1]) THEN W' = [W EXCEPT ![2] = v] /\ ph' = "third"
               ELSE W' = <<v, W[1], W[3]>> /\ ph' = "plane"
         /\ inner' = inner + 1 /\ UNCHANGED <<gram, R, outer>>
Third == /\ ph = "third"
         /\ LET g11 == N2(W[1]) g12 == IP(W[1], W[2]) g22 == N2(W[2])
                d == g11 * g22 - g12 * g12
                c1 == IP(W[1], W[3]) c2 == IP(W[2], W[3])
                x == FloorDiv(c1 * g22 - c2 * g12, d)
                y == FloorDiv(c2 * g11 - c1 * g12, d)
                left(p) == VSub(W[3], VAdd(VScale(x + p[1], W[1]), VScale(y + p[2], W[2])))
                corners == {<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>}
            IN \E p \in corners : /\ \A q \in corners : N2(left(p)) <= N2(left(q))
                                  /\ W' = [W EXCEPT ![3] = left(p)]
                                  /\ ph' = IF N2(left(p)) >= N2(W[2]) THEN "done" ELSE "sort"
         /\ UNCHANGED <<gram, R, outer, inner>>
RNext == Sort \/ Plane \/ Third
RSpec == RInit /\ [][RNext]_rv
Done == ph = "done"
---------------------------------------------------------------------------
\* always a basis of the same lattice
Same == LET d == Det(R) IN AbsV(Det(W)) = d /\ AllDiv(MM(W, Adj(R)), d)
Minkowski == Done =>
    /\ N2(W[1]) <= N2(W[2]) /\ N2(W[2]) <= N2(W[3])
    /\ \A x \in {-1, 1} : N2(W[2]) <= N2(VAdd(W[2], VScale(x, W[1])))
    /\ \A x, y \in {-1, 0, 1} : N2(W[3]) <= N2(VAdd(W[3], VAdd(VScale(x, W[1]), VScale(y, W[2]))))
\* the twelve conditions make the first vector a shortest one of the lattice
Shortest == Done => \A x, y, z \in -1..1 : (x # 0 \/ y # 0 \/ z # 0) =>
    N2(W[1]) <= N2(VAdd(VScale(x, W[1]), VAdd(VScale(y, W[2]), VScale(z, W[3]))))
\* far below the ten rounds after which the program gives up
Rounds == outer <= 4 /\ inner <= 5
\* with the bounds on the rounds: it always ends
Stuck == Done \/ ENABLED RNext
\* every round makes the basis shorter
Shrinks == [][(ph = "plane" /\ ph' = "plane") => N2(W'[1]) < N2(W[1])]_rv
=============================================================================
