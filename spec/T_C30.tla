------------------------------- MODULE T_C30 -------------------------------
(* Expanding generators.  Elements are <<site permutation, direction        *)
(* permutation>>, zero based, multiplied component by component.            *)
EXTENDS TraceBase, Coloring
Mul(g, h) == << [j \in DOMAIN g[1] |-> h[1][g[1][j] + 1]], [d \in DOMAIN g[2] |-> h[2][g[2][d] + 1]] >>
RECURSIVE Grow(_, _, _)
Grow(gens, done, front) ==
    IF front = {} THEN done
    ELSE LET new == {Mul(g, h) : g \in gens, h \in front} \ done IN Grow(gens, done \cup new, new)
Span(gens, n, m) == Grow(gens, {IdEl(n, m)}, {IdEl(n, m)})
\* a_group: every product of a translation with an operation
Products(e) == {Mul(<<e.trans[i], IdEl(1, e.m)[2]>>, e.rots[k]) : i \in DOMAIN e.trans, k \in DOMAIN e.rots}
JudgeC30(e) ==
    IF e.st # "ok" THEN {"status"}
    ELSE LET got == Range1(e.out)
             want == CASE e.kind = "products" -> Products(e)
                       [] e.kind = "both" -> Span(Products(e), e.n, e.m)
                       [] OTHER -> Span(Range1(e.gens), e.n, e.m)
         IN Fails([each_once |-> Cardinality(got) = Len(e.out),
                   nothing_else |-> got \subseteq want,
                   nothing_missing |-> want \subseteq got])
=============================================================================
