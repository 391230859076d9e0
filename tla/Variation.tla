------------------------------ MODULE Variation ------------------------------
(***************************************************************************)
(* The random models of simulated profiles: what bounds, standard           *)
(* deviations, correlations and percentiles the simulated values have.      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Limit == R("2")                       \* standard deviations at which everything is truncated

\* ------------------------------------------------------ normal distribution
phi(x) == RExp((x \otimes x) \otimes "-0.5") \oslash RSqrt(Pi \otimes 2)
\* distribution function:  1/2 + phi(x) (x + x^3/3 + x^5/15 + ...)
Phi(x) == LET t == FoldN(60, [term |-> R(x), sum |-> R(x)],
                         LAMBDA a, k : LET u == (a.term \otimes (x \otimes x)) \oslash (2 * k + 1) IN [term |-> u, sum |-> a.sum \oplus u])
          IN R("0.5") \oplus (phi(x) \otimes t.sum)
\* the scale that gives a normal variable truncated at the limit a unit standard deviation
ScaleOf(lim) == R(1) \oslash RSqrt(R(1) \ominus (((R(2) \otimes lim) \otimes phi(lim)) \oslash ((R(2) \otimes Phi(lim)) \ominus 1)))
Scale == ScaleOf(Limit)

\* distribution function of the scaled truncated normal within -lim..lim
PhiTruncOf(z, lim) == LET sc == ScaleOf(lim)
                          b == R(lim) \oslash sc
                          lo == Phi(RNeg(b)) IN
                      (Phi(z \oslash sc) \ominus lo) \oslash (Phi(b) \ominus lo)
PhiTrunc(z) == PhiTruncOf(z, Limit)
Clip(x, lo, hi) == RMax(lo, RMin(hi, x))
PartnerOf(z1, rho, lim) == Clip((rho \otimes z1) \oplus (RSqrt(RMax(0, R(1) \ominus (rho \otimes rho))) \otimes z1), RNeg(lim), R(lim))
Partner(z1, rho) == PartnerOf(z1, rho, Limit)

\* ------------------------------------------------------- soil-type curves
\* one point of a varied curve for the variate z (before clipping to the limits)
DarendeliG(m, z) == R(m) \oplus (z \otimes (RExp("-4.23") \oplus RSqrt(RMax(0, (R("0.25") \ominus ((R(m) \ominus "0.5") \otimes (R(m) \ominus "0.5"))) \oslash RExp("3.62")))))
DarendeliD(d, z) == R(d) \oplus (z \otimes ((RExp("-5") \oplus (RExp("-0.25") \otimes RSqrt(R(100) \otimes d))) \oslash 100))
SpidG(m, z, sd) == IF RLe(1, m) THEN R(1)
                   ELSE LET f == (R(m) \oslash (R(1) \ominus m)) \otimes RExp((z \otimes sd) \otimes 2) IN f \oslash (R(1) \oplus f)
SpidD(d, z, sd) == R(d) \otimes RExp(z \otimes sd)

\* model m: [kind, sg, sd]
PointG(m, g, z) == IF m.kind = "darendeli" THEN DarendeliG(g, z) ELSE SpidG(g, z, m.sg)
PointD(m, d, z) == IF m.kind = "darendeli" THEN DarendeliD(d, z) ELSE SpidD(d, z, m.sd)
\* the variate that takes the mean to the value seen
SolveG(m, g, v) == IF m.kind = "darendeli" THEN (R(v) \ominus g) \oslash (DarendeliG(g, 1) \ominus g)
                   ELSE RLn((R(v) \oslash (R(1) \ominus v)) \oslash (R(g) \oslash (R(1) \ominus g))) \oslash (R(2) \otimes m.sg)
SolveD(m, d, v) == IF m.kind = "darendeli" THEN (R(v) \ominus d) \oslash (DarendeliD(d, 1) \ominus d)
                   ELSE RLn(R(v) \oslash d) \oslash m.sd

\* points from which the variate can be recovered
Inside(v, lim) == RLt(R(lim[1]) \oplus "1e-9", v) /\ RLt(v, R(lim[2]) \ominus "1e-9")
UsableG(g, v, lim) == Inside(v, lim) /\ RLt("0.01", g) /\ RLt(g, "0.99") /\ RLt("0.001", v) /\ RLt(v, "0.999")
UsableD(d, v, lim) == Inside(v, lim) /\ RLt("1e-5", d)

Curve(n, Op(_), lim) == SeqGen(n, LAMBDA i : Clip(Op(i), lim[1], lim[2]))

\* --------------------------------------------------------------- velocities
RECURSIVE Interp(_, _, _, _)
Interp(x, xs, ys, i) == IF RLe(x, xs[1]) THEN R(ys[1])
                        ELSE IF i = Len(xs) THEN R(ys[Len(ys)])
                        ELSE IF RLe(x, xs[i + 1]) THEN R(ys[i]) \oplus (((R(x) \ominus xs[i]) \oslash (R(xs[i + 1]) \ominus xs[i])) \otimes (R(ys[i + 1]) \ominus ys[i]))
                        ELSE Interp(x, xs, ys, i + 1)
\* standard deviation of layer la (with middle mid): by soil-type name, by depth
LnStd(m, la, mid) == LET named == {k \in 1..Len(m.names) : m.names[k].name = la.name} IN
                     IF named # {} THEN R(m.names[CHOOSE k \in named : TRUE].std) ELSE Interp(mid, m.depths, m.stds, 1)

\* correlation between neighbouring layers of Toro (1995): d[i] is the depth of the
\* pair i (mean of the middles of both), t the distance between both middles
RhoDepth(m, d) == IF RLt(200, d) THEN R(m.rho_200) ELSE R(m.rho_200) \otimes RPow((R(d) \oplus m.h_0) \oslash (R(200) \oplus m.h_0), m.b)
Rho(m, d, t) == LET rd == RhoDepth(m, d) IN ((R(1) \ominus rd) \otimes (R(m.rho_0) \otimes RExp(RNeg(RMin(t, 100) \oslash m.delta)))) \oplus rd
\* mids: middles of the layers; the half-space follows the layer above it
Rhos(m, mids) == LET k == Len(mids) - 1
                     d == SeqGen(k, LAMBDA i : (mids[i] \oplus mids[i + 1]) \otimes "0.5") IN
                 SeqGen(k, LAMBDA i : IF i = k THEN R(1) ELSE Rho(m, d[i], mids[i + 1] \ominus mids[i]))

\* ------------------------------------------------------------------ layering
\* expected number of layer boundaries above depth d (non-homogeneous Poisson process)
Boundaries(m, d) == (R(m.c_3) \oslash (R(1) \oplus m.c_2)) \otimes (RPow(R(d) \oplus m.c_1, R(1) \oplus m.c_2) \ominus RPow(m.c_1, R(1) \oplus m.c_2))

\* ---------------------------------------------------------------- statistics
MeanS(s) == RSum(s) \oslash Len(s)
VarS(s) == LET a == MeanS(s) IN RSum(SeqMap(s, LAMBDA x : (R(x) \ominus a) \otimes (R(x) \ominus a))) \oslash Len(s)
CovS(s, t) == LET a == MeanS(s)
                  b == MeanS(t) IN RSum(SeqGen(Len(s), LAMBDA i : (R(s[i]) \ominus a) \otimes (R(t[i]) \ominus b))) \oslash Len(s)
CorrS(s, t) == CovS(s, t) \oslash RSqrt(VarS(s) \otimes VarS(t))
Between(a, x, b) == RLe(a, x) /\ RLe(x, b)
RootN(n) == RSqrt(n)
=============================================================================
