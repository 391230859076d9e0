------------------------------ MODULE LayerDyn ------------------------------
(* Iterated dynamic properties of a layer.                                  *)
(* A layer is [soil, vel, dmin, eps, G, D, Gp, Dp, assigned, smax]; the soil *)
(* is [uw, mr, dd] where mr and dd are <<>> (linear) or <<curve>>, and       *)
(* sdmin is the constant damping of a linear soil.  eps, G, D, Gp, Dp are    *)
(* sequences: one value, or one per frequency.                               *)
EXTENDS Curve, Naturals

G9 == R("9.80665")
Density(s) == R(s.uw) \oslash G9
InitialMod(la) == Density(la.soil) \otimes (R(la.vel) \otimes la.vel)
Nonlinear(s) == Len(s.mr) = 1 \/ Len(s.dd) = 1
SoilDmin(s) == IF Len(s.dd) = 1 THEN R(s.dd[1].y[1]) ELSE R(s.sdmin)

ModRedAt(s, e) == IF Len(s.mr) = 1 THEN CurveAt(s.mr[1], e) ELSE R(1)
DampingAt(la, e) ==
    IF Len(la.soil.dd) = 1
    THEN (CurveAt(la.soil.dd[1], e) \ominus SoilDmin(la.soil)) \oplus la.dmin
    ELSE R(la.dmin)

\* one value for soils that do not depend on strain, however many strains
ModSeq(la, es) == IF Len(la.soil.mr) = 1 THEN SeqMap(es, LAMBDA e : InitialMod(la) \otimes ModRedAt(la.soil, e))
                  ELSE <<InitialMod(la)>>
DampSeq(la, es) == IF Len(la.soil.dd) = 1 THEN SeqMap(es, LAMBDA e : DampingAt(la, e)) ELSE <<R(la.dmin)>>

Reset(la) == [la EXCEPT !.eps = <<R("1e-6")>>, !.G = <<InitialMod(la)>>, !.D = <<R(la.dmin)>>,
                        !.Gp = <<R("1e-9")>>, !.Dp = <<R("1e-9")>>, !.assigned = FALSE, !.smax = <<>>]
Make(s, vel, dmin) == Reset([soil |-> s, vel |-> vel, dmin |-> dmin, eps |-> <<>>, G |-> <<>>, D |-> <<>>,
                             Gp |-> <<>>, Dp |-> <<>>, assigned |-> FALSE, smax |-> <<>>])
SetStrain(la, es) == [la EXCEPT !.eps = es, !.Gp = la.G, !.Dp = la.D, !.G = ModSeq(la, es), !.D = DampSeq(la, es),
                                !.assigned = TRUE]
SetVel(la, v)  == Reset([la EXCEPT !.vel = v])
SetDmin(la, d) == Reset([la EXCEPT !.dmin = d])
SetMaxStrain(la, x) == [la EXCEPT !.smax = <<x>>]

\* largest change in percent between two (broadcast) sequences
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
MaxLen(s, t) == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
RelErr(prev, cur) ==
    LET n == MaxLen(prev, cur) IN
    IF AllN(n, LAMBDA i : RLt(0, At(cur, i)))
    THEN "100" \otimes FoldN(n, R(0), LAMBDA acc, i : RMax(acc, RAbs((R(At(prev, i)) \ominus At(cur, i)) \oslash At(cur, i))))
    ELSE IF AllN(n, LAMBDA i : RClose(At(prev, i), At(cur, i), "1e-5", "1e-8")) THEN R(0) ELSE R("inf")
MaxError(la) == RMax(RelErr(la.Gp, la.G), RelErr(la.Dp, la.D))
Velocity(la) == SeqMap(la.G, LAMBDA g : RSqrt(R(g) \oslash Density(la.soil)))
Reduction(la) == SeqMap(la.G, LAMBDA g : R(g) \oslash InitialMod(la))
StressEff(la) == SeqGen(MaxLen(la.G, la.eps), LAMBDA i : R(At(la.G, i)) \otimes At(la.eps, i))
StressMax(la) == SeqMap(la.G, LAMBDA g : R(g) \otimes la.smax[1])
=============================================================================
