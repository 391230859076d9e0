------------------------------- MODULE Signal -------------------------------
(* Records sampled in time and their one-sided discrete spectra.            *)
EXTENDS Num, Integers, Sequences

\* cos and sin of 2 pi q / n for q = 0..n-1
Twiddle(n) == [c |-> SeqGen(n, LAMBDA q : RCos((R(2) \otimes Pi) \otimes (R(q - 1) \oslash n))),
               s |-> SeqGen(n, LAMBDA q : RSin((R(2) \otimes Pi) \otimes (R(q - 1) \oslash n)))]
NumFreqs(n) == n \div 2 + 1
Freqs(n, dt) == SeqGen(NumFreqs(n), LAMBDA j : R(j - 1) \oslash (R(n) \otimes dt))
AngFreqs(n, dt) == SeqMap(Freqs(n, dt), LAMBDA f : (R(2) \otimes Pi) \otimes f)
RECURSIVE NextPow2_(_, _)
NextPow2_(k, n) == IF k >= n THEN k ELSE NextPow2_(2 * k, n)
NextPow2(n) == NextPow2_(1, n)

\* spectrum of the record a, extended by zeros (or cut) to n values
Spectrum1(a, n, tw, k) ==
    LET m == IF Len(a) < n THEN Len(a) ELSE n IN
    Cx(RSum(SeqGen(m, LAMBDA j : R(a[j]) \otimes tw.c[((k * (j - 1)) % n) + 1])),
       RNeg(RSum(SeqGen(m, LAMBDA j : R(a[j]) \otimes tw.s[((k * (j - 1)) % n) + 1]))))
Dft(a, n, tw) == SeqGen(NumFreqs(n), LAMBDA j : Spectrum1(a, n, tw, j - 1))

\* value k (from 0) of the record of n values with one-sided spectrum X
Series(X, n, tw, k) ==
    RSum(SeqGen(Len(X), LAMBDA j :
       LET q == ((k * (j - 1)) % n) + 1
           v == (R(X[j][1]) \otimes tw.c[q]) \ominus (R(X[j][2]) \otimes tw.s[q])
       IN IF j = 1 \/ (n % 2 = 0 /\ j = n \div 2 + 1) THEN v ELSE R(2) \otimes v)) \oslash n
SeriesOf(X, n, tw) == SeqGen(n, LAMBDA k : Series(X, n, tw, k - 1))
PeakOf(s) == FoldN(Len(s), R(0), LAMBDA acc, k : RMax(acc, RAbs(s[k])))
PeakSeries(X, n, tw) == PeakOf(SeriesOf(X, n, tw))
Through(tf, X) == SeqGen(Len(X), LAMBDA j : CMul(tf[j], X[j]))
Unit(n) == SeqGen(n, LAMBDA j : Cx(R(1), R(0)))

\* integrals by the trapezoidal rule
TrapzStep(s, dt) == RSum(SeqGen(Len(s) - 1, LAMBDA k : (R(dt) \oslash 2) \otimes (R(s[k]) \oplus s[k + 1])))
Cumulative(s, dt) == FoldN(Len(s), <<>>, LAMBDA acc, k :
    Append(acc, IF k = 1 THEN R(0) ELSE acc[k - 1] \oplus ((R(dt) \oslash 2) \otimes (R(s[k - 1]) \oplus s[k]))))
Squares(s) == SeqMap(s, LAMBDA v : R(v) \otimes v)
Absolute(s) == SeqMap(s, LAMBDA v : RAbs(v))
Accel == R("9.80665")
AriasFactor == (Pi \otimes Accel) \oslash 2
Arias(s, dt) == AriasFactor \otimes TrapzStep(Squares(s), dt)
AriasOverTime(s, dt) == SeqMap(Cumulative(Squares(s), dt), LAMBDA v : AriasFactor \otimes v)
CumAbsVel(s, dt) == Accel \otimes TrapzStep(Absolute(s), dt)

\* transfer functions: acceleration in g to velocity in cm/s, to a damped oscillator
VelTF(w) == SeqMap(w, LAMBDA x : IF RLt(RAbs(x), "1e-8") THEN Cx(R(0), R(0))
                                 ELSE Cx(R(0), RNeg((R(100) \otimes Accel) \oslash x)))
SdofTF(f, f0, d) == SeqMap(f, LAMBDA x :
    CDiv(Cx(R(f0) \otimes f0, R(0)), Cx((R(f0) \otimes f0) \ominus (R(x) \otimes x), (R(2) \otimes d) \otimes (R(f0) \otimes x))))

\* piecewise-linear interpolation, constant outside
RECURSIVE Seg(_, _, _)
Seg(xs, s, j) == IF j + 1 = Len(xs) \/ RLt(s, xs[j + 1]) THEN j ELSE Seg(xs, s, j + 1)
Interp(xs, ys, s) ==
    IF RLe(s, xs[1]) THEN R(ys[1]) ELSE IF RLe(xs[Len(xs)], s) THEN R(ys[Len(ys)])
    ELSE LET j == Seg(xs, s, 1)
             t == (R(s) \ominus xs[j]) \oslash (R(xs[j + 1]) \ominus xs[j])
         IN R(ys[j]) \oplus (t \otimes (R(ys[j + 1]) \ominus ys[j]))
\* Konno-Ohmachi smoothing of the spectrum s over f at fc; not a number if the window holds too little
KoWindow(f, fc, bw) == IF RLt(f, "1e-15") THEN R(0)
    ELSE IF REq(f, fc) THEN R(1)
    ELSE LET x == R(bw) \otimes (RLn(R(f) \oslash fc) \oslash RLn(10)) IN RPow(RAbs(RSin(x) \oslash x), 4)
KoSmooth(f, s, fc, bw) ==
    LET wt == SeqMap(f, LAMBDA x : KoWindow(x, fc, bw)) total == RSum(wt) IN
    IF RLt(fc, "1e-15") THEN R(s[1])
    ELSE IF RLt("0.3", total) THEN RSum(SeqGen(Len(f), LAMBDA j : R(wt[j]) \otimes s[j])) \oslash total
    ELSE R("nan")
=============================================================================
