--------------------------------- MODULE Rvt ---------------------------------
(***************************************************************************)
(* Random-vibration motions: a spectrum of amplitudes S (g s) over           *)
(* frequencies f (Hz) and a duration.  A motion is [f, S, dur]; its peak     *)
(* through a transfer function is the root mean square times the asymptotic  *)
(* peak factor (Davenport 1964).                                             *)
(* SourceSpectrum is the single-corner source model (Campbell 2003).         *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Integral(x, y) == RSum(SeqGen(Len(x) - 1, LAMBDA i : ((R(x[i + 1]) \ominus x[i]) \oslash 2) \otimes (R(y[i]) \oplus y[i + 1])))
Omega(f) == (R(2) \otimes Pi) \otimes f
\* spectral moment of an amplitude spectrum
Moment(f, A, k) == R(2) \otimes Integral(f, SeqGen(Len(f), LAMBDA j : RPow(Omega(f[j]), k) \otimes (R(A[j]) \otimes A[j])))
Crossings(f, A, dur) == RMax("1.33", (R(dur) \otimes RSqrt(Moment(f, A, 2) \oslash Moment(f, A, 0))) \oslash Pi)
PeakFactor(n) == LET x == RSqrt(R(2) \otimes RLn(n)) IN x \oplus (R("0.5772") \oslash x)
PeakAmps(f, A, dur) == PeakFactor(Crossings(f, A, dur)) \otimes RSqrt(Moment(f, A, 0) \oslash dur)
RvtPeak(m, tf) == PeakAmps(m.f, SeqGen(Len(m.f), LAMBDA j : CAbs(tf[j]) \otimes RAbs(m.S[j])), m.dur)
AllPass(m) == SeqGen(Len(m.f), LAMBDA j : <<R(1), R(0)>>)

\* --------------------------------------------------------------- source model
Log10(x) == RLn(x) \oslash RLn(10)
Wus == [beta |-> "3.5", rho |-> "2.8", q |-> "180", eta |-> "0.45", kappa |-> "0.04",
        spread |-> <<<<"1", "40">>, <<"0.5", "inf">>>>,
        fs |-> <<"0.01", "0.09", "0.16", "0.51", "0.84", "1.25", "2.26", "3.17", "6.05", "16.6", "61.2", "100">>,
        amps |-> <<"1", "1.1", "1.18", "1.42", "1.58", "1.74", "2.06", "2.25", "2.58", "3.13", "4", "4.4">>]
Ceus == [beta |-> "3.6", rho |-> "2.8", q |-> "680", eta |-> "0.36", kappa |-> "0.006",
         spread |-> <<<<"1", "70">>, <<"0", "130">>, <<"0.5", "inf">>>>,
         fs |-> <<"0.01", "0.1", "0.2", "0.3", "0.5", "0.9", "1.25", "1.8", "3", "5.3", "8", "14", "30", "60", "100">>,
         amps |-> <<"1", "1.02", "1.03", "1.05", "1.07", "1.09", "1.11", "1.12", "1.13", "1.14", "1.15", "1.15", "1.15", "1.15", "1.15">>]
Region(s) == IF s.region = "wna" THEN Wus ELSE Ceus
StressDrop(s) == IF s.drop # "None" THEN R(s.drop) ELSE IF s.region = "wna" THEN R(100)
                 ELSE RPow(10, R("3.45") \ominus ("0.2" \otimes RMax(s.mag, 5)))
HypoDist(s) == RSqrt((R(s.dist) \otimes s.dist) \oplus (R(s.depth) \otimes s.depth))
SeisMoment(s) == RPow(10, "1.5" \otimes (R(s.mag) \oplus "10.7"))
Corner(s) == (R("4.9e6") \otimes Region(s).beta) \otimes RPow(StressDrop(s) \oslash SeisMoment(s), R(1) \oslash 3)
RECURSIVE Spreading(_, _, _, _)
Spreading(d, spread, k, from) ==
    LET to == RMin(d, spread[k][2])
        c == RPow(R(from) \oslash to, spread[k][1]) IN
    IF RLt(to, d) THEN c \otimes Spreading(d, spread, k + 1, to) ELSE c
PathDuration(s) == LET d == HypoDist(s) IN
    IF s.region = "wna" THEN "0.05" \otimes d
    ELSE (IF RLt(10, d) THEN "0.16" \otimes (RMin(d, 70) \ominus 10) ELSE R(0))
         \oplus ((IF RLt(70, d) THEN "-0.03" \otimes (RMin(d, 130) \ominus 70) ELSE R(0))
         \oplus (IF RLt(130, d) THEN "0.04" \otimes (d \ominus 130) ELSE R(0)))
SourceDuration(s) == (R(1) \oslash Corner(s)) \oplus PathDuration(s)
RECURSIVE LinAmp(_, _, _, _)
LinAmp(lf, fs, amps, k) == IF RLe(lf, RLn(fs[1])) THEN R(amps[1])
    ELSE IF k = Len(fs) THEN R(amps[k])
    ELSE IF RLe(lf, RLn(fs[k + 1])) THEN R(amps[k]) \oplus (((lf \ominus RLn(fs[k])) \oslash (RLn(fs[k + 1]) \ominus RLn(fs[k]))) \otimes (R(amps[k + 1]) \ominus amps[k]))
    ELSE LinAmp(lf, fs, amps, k + 1)
SourceAmp(s, f) ==
    LET g == Region(s)
        const == R("1.1") \oslash ((RSqrt(2) \otimes (R(4) \otimes Pi)) \otimes (R(g.rho) \otimes RPow(g.beta, 3)))
        src == (const \otimes SeisMoment(s)) \oslash (R(1) \oplus RPow(R(f) \oslash Corner(s), 2))
        path == Spreading(HypoDist(s), g.spread, 1, 1)
                \otimes RExp(RNeg((Pi \otimes f) \otimes HypoDist(s)) \oslash ((R(g.q) \otimes RPow(f, g.eta)) \otimes g.beta))
        site == LinAmp(RLn(f), g.fs, g.amps, 1) \otimes RExp(RNeg((Pi \otimes g.kappa) \otimes f))
        conv == R("1e-20") \oslash "980.665" IN
    (conv \otimes RPow(Omega(f), 2)) \otimes ((src \otimes path) \otimes site)
=============================================================================
