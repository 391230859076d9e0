------------------------------ MODULE Damping ------------------------------
(***************************************************************************)
(* Site attenuation of a column of layers [th, v, d, rho] (the last is the   *)
(* half-space) and the adjustment of the minimum damping to a target.         *)
(***************************************************************************)
EXTENDS Waves

Incr(la) == ((R(2) \otimes la.d) \otimes la.th) \oslash la.v
SiteAtten(ls) == RSum(SeqMap(ls, Incr))

\* ------------------------------------------------- attenuation by scattering
Spaced(a, b, n) == SeqGen(n, LAMBDA k : R(a) \oplus (((R(b) \ominus a) \otimes (k - 1)) \oslash (n - 1)))
DefaultFreqs == Spaced(50, 200, 256)
Elastic(ls) == SeqMap(ls, LAMBDA la : [rho |-> la.rho, G |-> <<R(la.rho) \otimes (R(la.v) \otimes la.v)>>, D |-> <<R(la.d)>>, th |-> R(la.th)])
\* slope of the straight line nearest to y over x
Slope(x, y) ==
    LET n == Len(x)
        mx == RSum(x) \oslash n  my == RSum(y) \oslash n
        dx == SeqMap(x, LAMBDA v : R(v) \ominus mx)
    IN RSum(SeqGen(n, LAMBDA i : dx[i] \otimes (R(y[i]) \ominus my))) \oslash RSum(SeqMap(dx, LAMBDA v : v \otimes v))
TotalAtten(ls, fs) ==
    LET c == Column(Elastic(ls), SeqMap(fs, LAMBDA f : (R(2) \otimes Pi) \otimes f))
        a == [i |-> Len(ls), z |-> R(0), f |-> "outcrop"]
        b == [i |-> 1, z |-> R(0), f |-> "outcrop"]
    IN RNeg(Slope(fs, SeqGen(Len(fs), LAMBDA j : RLn(CAbs(AccelTF(c, a, b, j)))))) \oslash Pi
Scatter(ls, fs) == RMax(TotalAtten(ls, fs) \ominus SiteAtten(ls), 0)

\* --------------------------------------------------------------- adjustment
\* out[i]: layer i is excluded
Selected(ls, out) == {i \in 1..Len(ls) : ~out[i]}
Fixed(ls, out) == RSum(SeqGen(Len(ls), LAMBDA i : IF out[i] THEN Incr(ls[i]) ELSE R(0)))
Remainder(ls, out, target, scatter) == R(target) \ominus (R(scatter) \oplus Fixed(ls, out))
Attainable(ls, out, target, scatter) ==
    /\ \E i \in Selected(ls, out) : RLt(0, ls[i].th)
    /\ RLt(0, Remainder(ls, out, target, scatter))
\* damping of the selected layers is c / velocity, with c attaining the target
Adjust(ls, out, target, scatter) ==
    LET per == RSum(SeqGen(Len(ls), LAMBDA i : IF out[i] THEN R(0) ELSE (R(2) \otimes ls[i].th) \oslash (R(ls[i].v) \otimes ls[i].v)))
        c == Remainder(ls, out, target, scatter) \oslash per
    IN SeqGen(Len(ls), LAMBDA i : IF out[i] THEN ls[i] ELSE [ls[i] EXCEPT !.d = c \oslash ls[i].v])
=============================================================================
