-------------------------- MODULE SoilModelsTrace --------------------------
(* Soil types built by the real code from the empirical models.              *)
EXTENDS SoilModels, TraceBase
VARIABLE l
vars == l

NearD(a, b) == RClose(a, b, "1e-8", "1e-7")
Xs(e) == IF e.given = <<>> THEN DefaultStrains ELSE e.given
Finite(s) == \A i \in 1..Len(s) : RFinite(s[i])
Clip(v, lo, hi) == RMax(lo, RMin(v, hi))

Built(e) ==
    LET k == e.k  xs == Xs(e) n == Len(xs)
        refuse == k.m = "wang" /\ (k.s = "" \/ k.group \notin Groups)
    IN IF refuse THEN Chk("InsufficientRefused", IF k.group \in Groups THEN e.raised = "ValueError" ELSE e.raised # "")
       ELSE LET mr == ModReduc(k, xs)  d == Damping(k, xs) d0 == Dmin(k) IN
       IF ~(Finite(mr) /\ Finite(d)) THEN {}
       ELSE IF e.raised # "" THEN {"CallRaised"}
       ELSE Chk("Strains", NearT(e.xm, xs, "1e-12", 0) /\ NearT(e.xd, xs, "1e-12", 0))
            \cup Chk("ModulusReduction", NearT(e.mr, mr, "1e-8", "1e-9"))
            \cup Chk("Damping", NearT(e.d, d, "1e-8", "1e-7"))
            \cup Chk2(\A i \in 1..n : RLe(mr[i], 1) /\ (i > 1 => RLe(mr[i], mr[i-1])), "Reduces", \A i \in 1..Len(e.mr) : RLt(0, e.mr[i]) /\ RLe(e.mr[i], 1) /\ (i > 1 => RLe(e.mr[i], R(e.mr[i-1]) \oplus "1e-9")))
            \cup Chk2(\A i \in 1..n : RLe(d0, d[i]), "AtLeastMinimum", \A i \in 1..Len(e.d) : RLe(d0 \ominus "1e-7", e.d[i]))
            \cup Chk("DampingMin", NearD(e.dmin, e.d[1]))
            \cup (IF Len(e.mr) # n \/ Len(e.d) # n THEN {} ELSE
                  Chk("EvaluatedModulus", \A i \in 1..n : NearD(e.callm[i], Clip(e.mr[i], "0.001", 1)))
                  \cup Chk("EvaluatedDamping", \A i \in 1..n : NearD(e.calld[i], Clip(e.d[i], 0, "0.49")))
                  \cup Chk("Between", \A i \in 1..n-1 :
                        /\ NearD(e.midm[i], Clip((R(e.mr[i]) \oplus e.mr[i+1]) \oslash 2, "0.001", 1))
                        /\ NearD(e.midd[i], Clip((R(e.d[i]) \oplus e.d[i+1]) \oslash 2, 0, "0.49"))))
            \cup Chk("UnitWeight", IF e.uw = "" THEN k.m # "kishida" \/ Near(e.unit, KUnitWt(k)) ELSE REq(e.unit, e.uw))
            \cup Chk2(k.m \in Masings, "ReferenceStrain", Near(e.ref, RefStrain(k)) /\ Near(e.curv, Curvature(k)) /\ Near(e.scale, CycleScale(k)))
            \cup Chk("Nonlinear", e.nonlinear)
            \cup Chk("GivenUnchanged", e.kept)

Wang(e) ==
    LET k == e.k IN
    IF e.raised # "" THEN {"CallRaised"}
    ELSE LET dm == WangDminDec(k) g == WangGmax(k) IN
         Chk("Level", \A q \in Quantities : e.lev[q] = Level(k.group, q, Given(k)))
         \cup Chk2(RFinite(g), "ShearModulus", Near(e.g, g))
         \cup Chk2(RFinite(dm), "MinimumDamping", Near(e.dm, dm))
         \cup Chk("ModulusReduction", LET w == SeqMap(e.xs, LAMBDA x : WangModRed(k, x)) IN Finite(w) => NearT(e.mr, w, "1e-8", "1e-9"))
         \cup Chk("Damping", LET w == SeqMap(e.xs, LAMBDA x : WangDamping(k, x, e.d0)) IN Finite(w) => NearT(e.d, w, "1e-8", "1e-9"))
         \cup Chk2(RFinite(dm), "DampingAtLeast", LET w == SeqMap(e.xs, LAMBDA x : WangDamping(k, x, dm)) IN Finite(w) => NearT(e.dn, w, "1e-8", "1e-9"))

\* the same minimum damping with several columns
Columns(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE LET d == Damping([e.k EXCEPT !.dmin = "0"], Xs(e)) IN
         Chk("DampingColumns", Len(e.rows) = Len(d) /\ \A i \in 1..Len(d) : Len(e.rows[i]) = Len(e.dmins) /\ \A j \in 1..Len(e.dmins) : NearD(e.rows[i][j], d[i] \oplus e.dmins[j]))

Failing(e) ==
    CASE e.ev = "soil" -> Built(e)
      [] e.ev = "wang" -> Wang(e)
      [] e.ev = "columns" -> Columns(e)
      [] OTHER -> {"CallRaised"}

Init == l = 1
Next == l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
