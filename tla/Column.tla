------------------------------- MODULE Column -------------------------------
(***************************************************************************)
(* A velocity column: layers [th, v, rho] over a half-space (the last one),  *)
(* and what is integrated over it: travel times, time-averaged velocities,    *)
(* the simplified Rayleigh velocity (Urzua et al. 2017), and the              *)
(* quarter-wavelength amplification.                                          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Top(ls, i) == RSum(SeqGen(i - 1, LAMBDA j : R(ls[j].th)))
\* how much of layer i lies above depth z (the half-space has no end)
Above(ls, i, z) == LET d == RMax(R(z) \ominus Top(ls, i), 0) IN IF i = Len(ls) THEN d ELSE RMin(d, ls[i].th)
Slow(la) == R(1) \oslash la.v
Sum2(ls, z, P(_)) == RSum(SeqGen(Len(ls), LAMBDA i : Above(ls, i, z) \otimes P(ls[i])))
TimeTo(ls, z) == Sum2(ls, z, Slow)
AvgVel(ls, z) == R(z) \oslash TimeTo(ls, z)
SlowTo(ls, z) == TimeTo(ls, z) \oslash z
RhoTo(ls, z)  == Sum2(ls, z, LAMBDA la : R(la.rho)) \oslash z
Vs30(ls) == AvgVel(ls, 30)

\* depth reached after travel time t
RECURSIVE DepthFrom(_, _, _, _)
DepthFrom(ls, i, z, t) == LET dt == R(ls[i].th) \otimes Slow(ls[i]) IN
    IF i = Len(ls) \/ RLe(t, dt) THEN z \oplus (R(ls[i].v) \otimes t) ELSE DepthFrom(ls, i + 1, z \oplus ls[i].th, R(t) \ominus dt)
DepthAt(ls, t) == DepthFrom(ls, 1, R(0), t)

\* Urzua et al. (2017): mode shape from the base up, then the frequency of that shape
Mid(ls, i) == Top(ls, i) \oplus (R(ls[i].th) \oslash 2)
Shape(ls, i) == RSum(SeqGen(Len(ls) - i + 1, LAMBDA k : LET j == i + k - 1 IN
                    (Mid(ls, j) \otimes ls[j].th) \otimes (Slow(ls[j]) \otimes Slow(ls[j]))))
Sq(x) == R(x) \otimes x
Rayleigh(ls) ==
    LET n == Len(ls)
        num == RSum(SeqGen(n, LAMBDA i : (R(ls[i].th) \otimes Sq(Mid(ls, i))) \otimes Sq(Slow(ls[i]))))
        X == Append(SeqGen(n, LAMBDA i : Shape(ls, i)), R(0))
        den == RSum(SeqGen(n, LAMBDA i : R(ls[i].th) \otimes Sq((X[i] \oplus X[i + 1]) \oslash 2)))
        total == RSum(SeqGen(n, LAMBDA i : R(ls[i].th)))
    IN ((R(4) \otimes total) \otimes RSqrt(num \oslash den)) \oslash (R(2) \otimes Pi)

\* ------------------------------------------------------- quarter wavelength
\* the depth whose average velocity over four times that depth is f
QuarterDepth(ls, f) == DepthAt(ls, R(1) \oslash (R(4) \otimes f))
Impedance(la) == R(la.rho) \otimes la.v
BooreAbrahamson(x) == LET k == (R(x) \oplus "1.301") \oslash "1.398" IN
    ("0.56" \otimes RPow(k, 4)) \oslash RPow(RPow(R(1) \ominus RPow(k, 6), 2) \oplus ("0.76" \otimes RPow(k, 3)), "0.333")
BottomFreq(ls) == LET z == Top(ls, Len(ls)) IN R(1) \oslash (R(4) \otimes TimeTo(ls, z))
Exponent(ls, method, f) == IF method = "standard" THEN R("0.5")
                           ELSE BooreAbrahamson(RLn(R(f) \oslash BottomFreq(ls)) \oslash RLn(10))
AmpFor(ls, rho, slow, eta) == RPow((Impedance(ls[Len(ls)]) \otimes slow) \oslash rho, eta)
Amp(ls, method, f) == LET z == QuarterDepth(ls, f) IN AmpFor(ls, RhoTo(ls, z), SlowTo(ls, z), Exponent(ls, method, f))
SiteTerm(amp, kappa, f) == R(amp) \otimes RExp(RNeg((Pi \otimes kappa) \otimes f))

\* The depth may be found to within two percent in travel time.  Averages over
\* a depth are monotonic within a layer: their extremes are at the ends or at interfaces.
Extremes(ls, lo, hi, P(_)) ==
    LET zs == <<lo, hi>> \o SelectSeq(SeqGen(Len(ls), LAMBDA i : Top(ls, i)), LAMBDA z : RLt(lo, z) /\ RLt(z, hi))
        vs == SeqMap(zs, P)
    IN <<FoldN(Len(vs), vs[1], LAMBDA a, i : RMin(a, vs[i])), FoldN(Len(vs), vs[1], LAMBDA a, i : RMax(a, vs[i]))>>
AmpBand(ls, method, f) ==
    LET t == R(1) \oslash (R(4) \otimes f)
        lo == DepthAt(ls, t \otimes "0.98")  hi == DepthAt(ls, t \otimes "1.0205")
        s == Extremes(ls, lo, hi, LAMBDA z : SlowTo(ls, z))
        r == Extremes(ls, lo \otimes "0.99", hi \otimes "1.0102", LAMBDA z : RhoTo(ls, z))
        eta == Exponent(ls, method, f)
        a == AmpFor(ls, r[2], s[1], eta)  b == AmpFor(ls, r[1], s[2], eta)
    IN <<RMin(a, b), RMax(a, b)>>
Within(x, band) == RLe(band[1] \otimes "0.999999999", x) /\ RLe(x, band[2] \otimes "1.000000001")

\* ------------------------------------ the iteration for the averaging depths
StartDepth(ls, f) == R(1) \oslash ((R(4) \otimes f) \otimes (RSum(SeqMap(ls, Slow)) \oslash Len(ls)))
NextDepth(ls, f, z) == (R(z) \oplus (R(1) \oslash ((R(4) \otimes f) \otimes SlowTo(ls, z)))) \oslash 2
Settled(z, z1) == RLe(RAbs(R(z) \ominus z1), R("1e-8") \oplus ("0.01" \otimes z1))
\* The iteration settles unless the column softens abruptly with depth
Reversal(ls) == \E i \in 2..Len(ls) : RLt(R(3) \otimes TimeTo(ls, Top(ls, i)), Top(ls, i) \otimes Slow(ls[i]))
=============================================================================
