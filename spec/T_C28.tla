------------------------------- MODULE T_C28 -------------------------------
(* The lattice parameter.  Lengths are observed in millionths.  An element  *)
(* of atomic volume v (hundred-thousandths) in a cell of volume w (parent   *)
(* cell, thousandths) with b atoms has the lattice parameter a with         *)
(* a^3 * w = v * b.                                                         *)
EXTENDS TraceBase, Big
Volumes == ("H" :> 3729580) @@ ("He" :> 3217890) @@ ("Li" :> 2125430) @@ ("Be" :> 849323) @@ ("B" :> 724205)
 @@ ("C" :> 568741) @@ ("N" :> 4660020) @@ ("O" :> 2228020) @@ ("F" :> 1702580) @@ ("Ne" :> 2173460)
 @@ ("Na" :> 2325960) @@ ("Mg" :> 2339280) @@ ("Al" :> 1660750) @@ ("Si" :> 785110) @@ ("P" :> 914590)
 @@ ("S" :> 1716720) @@ ("Cl" :> 3520740) @@ ("Ar" :> 3638290) @@ ("K" :> 7152780) @@ ("Ca" :> 4343530)
 @@ ("Sc" :> 2564780) @@ ("Ti" :> 1815650) @@ ("V" :> 1377180) @@ ("Cr" :> 1194390) @@ ("Mn" :> 1932070)
 @@ ("Fe" :> 1182000) @@ ("Co" :> 1118380) @@ ("Ni" :> 1090360) @@ ("Cu" :> 1176150) @@ ("Zn" :> 1331100)
 @@ ("Ga" :> 1844960) @@ ("Ge" :> 1936380) @@ ("As" :> 2042700) @@ ("Se" :> 5861730) @@ ("Br" :> 3331700)
 @@ ("Kr" :> 4678730) @@ ("Rb" :> 8733840) @@ ("Sr" :> 5618890) @@ ("Y" :> 3307920) @@ ("Zr" :> 2383270)
 @@ ("Nb" :> 1796850) @@ ("Mo" :> 1562790) @@ ("Tc" :> 1454580) @@ ("Ru" :> 1392060) @@ ("Rh" :> 1371800)
 @@ ("Pd" :> 1471600) @@ ("Ag" :> 1710450) @@ ("Cd" :> 1871610) @@ ("In" :> 2668610) @@ ("Sn" :> 2932380)
 @@ ("Sb" :> 2717330) @@ ("Te" :> 6232270) @@ ("I" :> 2438070) @@ ("Xe" :> 5958200) @@ ("Cs" :> 11072300)
 @@ ("Ba" :> 6325300) @@ ("Hf" :> 2317480) @@ ("Ta" :> 1813230) @@ ("W" :> 1577720) @@ ("Re" :> 1486940)
 @@ ("Os" :> 1454850) @@ ("Ir" :> 1415580) @@ ("Pt" :> 1505910) @@ ("Au" :> 1697930) @@ ("Hg" :> 2769140)
 @@ ("Tl" :> 2929490) @@ ("Pb" :> 3032180) @@ ("Bi" :> 3128490)
\* a (millionths) is the cube root of v*b/w:  (a-1)^3 w <= v b 10^16 <= (a+1)^3 w   [10^18 * 10^3 / 10^5]
Ten16 == <<0, 0, 0, 0, 0, 10>>
ElementOK(a, el, b, w) ==
    LET rhs == BMul(BMul(BOf(Volumes[el]), BOf(b)), Ten16)
    IN /\ a > 1
       /\ BLeq(BMul(BCube(BOf(a - 1)), BOf(w)), rhs)
       /\ BLeq(rhs, BMul(BCube(BOf(a + 1)), BOf(w)))
\* |x*s - sum c_i a_i| <= s  (rounding)
MeanOK(x, cs, as) == LET s == SumSeq(cs) d == SumSeq([i \in DOMAIN cs |-> cs[i] * (x - as[i])])
                     IN AbsV(d) <= s + 1
Present(e) == {i \in DOMAIN e.concs : e.concs[i] > 0}
JudgeC28(e) ==
    CASE e.kind = "bad" -> Fails([refused |-> e.st # "ok"])
      [] e.st # "ok" -> {"status"}
      [] e.kind = "none" -> Fails([unscaled |-> e.lat = 1000000 /\ e.exact])
      [] OTHER ->
         Fails([elemental |-> \A i \in DOMAIN e.elems : ElementOK(e.pure[i], e.elems[i], e.nb, e.vol),
                weighted |-> MeanOK(e.lat, e.concs, e.pure),
                between |-> \A s \in {Present(e)} :
                    /\ \E i \in s : e.pure[i] <= e.lat + 1
                    /\ \E i \in s : e.lat - 1 <= e.pure[i],
                order |-> e.shuffled = e.lat,
                ratio |-> e.scaled = e.lat,
                zeros |-> e.padded = e.lat])
=============================================================================
