-------------------------------- MODULE Big --------------------------------
(* Natural numbers beyond 32 bits: little-endian sequences of base 1000     *)
(* digits without trailing zeros (<<>> is zero).                            *)
EXTENDS PhLib
RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))
RECURSIVE BCarry(_, _)
BCarry(a, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 1000>> \o BCarry(<<>>, c \div 1000))
                ELSE LET t == Head(a) + c IN <<t % 1000>> \o BCarry(Tail(a), t \div 1000)
BOf(n) == BTrim(BCarry(<<n>>, 0))
BAt(a, i) == IF i > Len(a) THEN 0 ELSE a[i]
BAdd(a, b) == BTrim(BCarry([i \in 1..MaxV(Len(a), Len(b)) |-> BAt(a, i) + BAt(b, i)], 0))
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BTrim(BCarry([k \in 1..Len(a) + Len(b) - 1 |->
                     SumSeq([i \in 1..Len(a) |-> IF k - i + 1 \in 1..Len(b) THEN a[i] * b[k - i + 1] ELSE 0])], 0))
RECURSIVE BLeqAt(_, _, _)
BLeqAt(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE BLeqAt(a, b, i - 1)
BLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ BLeqAt(a, b, Len(a)))
BCube(a) == BMul(a, BMul(a, a))
=============================================================================
