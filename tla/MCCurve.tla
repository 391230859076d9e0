------------------------------ MODULE MCCurve ------------------------------
(* Exhaustive check of the curve definition over small tables: it meets the *)
(* table at its points, stays between neighbouring values, is constant      *)
(* outside the table, within its limits, and continuous across the points.  *)
EXTENDS Curve, TLC
CONSTANTS Vals, N
VARIABLES c, phase
Grid == <<"1e-6", "1e-5", "1e-4", "1e-3", "1e-2">>
Init == c = [x |-> <<"1e-5", "1e-3">>, y |-> <<1, 1>>, lo |-> "0", hi |-> "1"] /\ phase = 0
\* replacing strains, values or limits of the curve
SetValues == \E f \in [1..Len(c.x) -> Vals] : c' = [c EXCEPT !.y = [i \in 1..Len(c.x) |-> f[i]]]
SetStrains == \E a \in 1..4 : \E b \in a + 1..5 :
     Len(c.x) = 2 /\ c' = [c EXCEPT !.x = <<Grid[a], Grid[b]>>]
Extend == Len(c.x) < N /\ \E v \in Vals : \E k \in 1..5 :
     /\ RLt(c.x[Len(c.x)], Grid[k])
     /\ c' = [c EXCEPT !.x = Append(@, Grid[k]), !.y = Append(@, v)]
SetLimits == \E lo \in {"0", "0.3"}, hi \in {"0.7", "1"} : c' = [c EXCEPT !.lo = lo, !.hi = hi]
Next == (SetValues \/ SetStrains \/ Extend \/ SetLimits) /\ phase' = phase
Spec == Init /\ [][Next]_<<c, phase>>

Queries == {"0", "1e-9", "1e-7", "3e-6", "1e-5", "5e-5", "2e-4", "1e-3", "7e-3", "0.5"}
WithinLimits == \A s \in Queries : RLe(c.lo, CurveAt(c, s)) /\ RLe(CurveAt(c, s), c.hi)
MeetsTable == \A i \in 1..Len(c.x) : RClose(CurveAt(c, c.x[i]), Clip(c.y[i], c.lo, c.hi), "1e-12", "1e-12")
StaysBetween == \A s \in Queries : \A j \in 1..Len(c.x) - 1 :
     RLe(c.x[j], s) /\ RLe(s, c.x[j + 1]) =>
        LET a == Clip(c.y[j], c.lo, c.hi)  b == Clip(c.y[j + 1], c.lo, c.hi) IN
        RLe(RSub(RMin(a, b), "1e-12"), CurveAt(c, s)) /\ RLe(CurveAt(c, s), RAdd(RMax(a, b), "1e-12"))
ConstantOutside == /\ CurveAt(c, "1e-9") = Clip(c.y[1], c.lo, c.hi)
                   /\ CurveAt(c, "0.5") = Clip(c.y[Len(c.y)], c.lo, c.hi)
=============================================================================
