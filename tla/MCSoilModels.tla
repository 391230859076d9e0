---------------------------- MODULE MCSoilModels ----------------------------
(* Strain grows step by step in a soil described by one of the models, with  *)
(* parameters from a grid; for Wang and Stokoe index parameters are supplied  *)
(* one by one.                                                               *)
EXTENDS SoilModels, TLC
CONSTANTS Stresses, PIs, OCRs, Cus, D50s, Dmins, OCs, Voids, Fines, Waters, Steps, Kinds
VARIABLES k, j, mr, d
vars == <<k, j, mr, d>>
None == "-"
No(x) == IF x = None THEN "" ELSE x
Xs == DefaultStrains
Soils ==
    {[m |-> "darendeli", pi |-> pi, ocr |-> o, s |-> s, f |-> "1", n |-> "10", dmin |-> No(q)] : pi \in PIs, o \in OCRs, s \in Stresses, q \in Dmins}
    \cup {[m |-> "menq", cu |-> c, d50 |-> z, s |-> s, n |-> "10", dmin |-> No(q)] : c \in Cus, z \in D50s, s \in Stresses, q \in Dmins}
    \cup {[m |-> "rollins", cu |-> No(c), s |-> s, n |-> "10", dmin |-> No(q)] : c \in Cus \cup {None}, s \in Stresses, q \in Dmins}
    \cup {[m |-> "two", s |-> s, c |-> TwoDefault] : s \in Stresses}
    \cup {[m |-> "alemu", pi |-> pi, ocr |-> o, s |-> s, fc |-> "0.8"] : pi \in PIs, o \in OCRs, s \in Stresses}
    \cup {[m |-> "kishida", oc |-> o, s |-> s, lcr |-> "1"] : o \in OCs, s \in Stresses}
Bare(g, s, q) == [m |-> "wang", group |-> g, s |-> s, e |-> "", d50 |-> "", cu |-> "", fc |-> "", w |-> "", pi |-> "", ocr |-> "", dmin |-> No(q)]
WangSoils == {Bare(g, s, q) : g \in Groups, s \in Stresses, q \in Dmins}
Compute(s, i) == LET xs == SubSeq(Xs, 1, i) IN /\ mr = ModReduc(s, xs)[i] /\ d = Damping(s, xs)[i]
Init == /\ k \in {s \in Soils \cup WangSoils : s.m \in Kinds} /\ j = 1 /\ Compute(k, 1)
Grow == /\ j < Steps /\ j' = j + 1 /\ k' = k
        /\ LET xs == SubSeq(Xs, 1, j + 1) IN mr' = ModReduc(k, xs)[j+1] /\ d' = Damping(k, xs)[j+1]
Values(x, g) == CASE x = "e" -> Voids [] x = "fc" -> IF g = "sand" THEN {"6"} ELSE Fines [] x = "w" -> Waters [] x = "pi" -> PIs
                  [] x = "ocr" -> OCRs [] x = "cu" -> {"2"} [] x = "d50" -> {"0.4"}
Supply == /\ k.m = "wang" /\ j = 1 /\ j' = 1
          /\ \E x \in {"e", "d50", "cu", "fc", "w", "pi", "ocr"} \ Given(k) : \E v \in Values(x, k.group) :
               /\ x \in UNION {{Adds[k.group][q][i] : i \in 1..Len(Adds[k.group][q])} : q \in Quantities}
               /\ k' = [k EXCEPT ![x] = v]
          /\ mr' = ModReduc(k', SubSeq(Xs, 1, 1))[1] /\ d' = Damping(k', SubSeq(Xs, 1, 1))[1]
Next == Grow \/ Supply
Spec == Init /\ [][Next]_vars
EPS == "1e-9"
Reduction == RLt(0, mr) /\ RLe(mr, 1)
AtLeastMinimum == RLe(Dmin(k) \ominus EPS, d)
GivenMinimum == k.m \in Masings \cup {"wang"} /\ k.dmin # "" => REq(Dmin(k), k.dmin) /\ (j = 1 /\ k.m \in Masings => RClose(d, k.dmin, "0.05", "3e-4"))
Physical == RLt(0, d) /\ (k.m # "alemu" => RLt(d, "0.49"))
\* with strain, modulus does not grow and damping does not fall
Monotone == [][k' = k => RLe(mr', mr \oplus EPS) /\ RLe(d, d' \oplus EPS)]_vars
\* half of the modulus at the reference strain; which grows with the confining stress
HalfAtRef == k.m \in Masings => RClose(Hyper(RefStrain(k), RefStrain(k), Curvature(k), 1), "0.5", "1e-12", 0)
More == IF "s" \in DOMAIN k THEN [k EXCEPT !.s = RStr(R(2) \otimes k.s)] ELSE k
Confined == j = 1 =>
    CASE k.m \in Masings -> RLt(RefStrain(k), RefStrain(More)) /\ (k.m # "rollins" /\ k.dmin = "" => RLe(Dmin(More), Dmin(k)))
      [] k.m = "two" -> RLt(TwoRef(k), TwoRef(More)) /\ RLt(Dmin(More), Dmin(k)) /\ (\A i \in 1..Steps : RLe(TwoMod(k, Xs[i]), TwoMod(More, Xs[i])))
      [] k.m = "alemu" -> RLt(AlemuRef(k), AlemuRef(More)) /\ RLt(Dmin(More), Dmin(k))
      [] OTHER -> TRUE
\* levels of detail: from 0, by what is supplied, all of it at the last one; supplying more never loses detail
Top(q) == Len(Adds[k.group][q]) - 1
Levels == k.m = "wang" => \A q \in Quantities :
    LET l == Level(k.group, q, Given(k)) IN
    /\ l >= 0 /\ l <= Top(q)
    /\ \A i \in 1..l+1 : Adds[k.group][q][i] \in Given(k)
    /\ l < Top(q) => Adds[k.group][q][l+2] \notin Given(k)
NoLoss == [][k.m = "wang" => \A q \in Quantities : Level(k.group, q, Given(k)) <= Level(k'.group, q, Given(k'))]_vars
Insufficient == k.m = "wang" => \A q \in Quantities : Level(k.group, q, Given(k) \ {"s"}) = -1
Stiff == k.m = "wang" => RLt(0, WangGmax(k)) /\ RLt(WangGmax(k), WangGmax(More))
Organic == k.m = "kishida" => RLt(8, KUnitWt(k)) /\ RLt(KUnitWt(k), 25)
=============================================================================
