------------------------------ MODULE MCSignal ------------------------------
(* Every record of up to N values from a small set, for the lengths Ns of    *)
(* transform: the spectrum describes the record and its measures.             *)
EXTENDS Signal, TLC
CONSTANTS Vals, N, Ns
VARIABLES a, n
Init == a = <<>> /\ n \in Ns
Next == Len(a) < N /\ \E v \in Vals : a' = Append(a, v - 1) /\ n' = n
Spec == Init /\ [][Next]_<<a, n>>
Dt == R("0.5")
Tw == Twiddle(n)
X == Dft(a, n, Tw)
Padded == SeqGen(n, LAMBDA k : IF k <= Len(a) THEN R(a[k]) ELSE R(0))
NearBy(x, y) == RClose(x, y, "1e-9", "1e-12")
Some == Len(a) > 0
\* the record comes back, extended by zeros or cut
RoundTrip == Some => LET s == SeriesOf(X, n, Tw) IN AllN(n, LAMBDA k : NearBy(s[k], Padded[k]))
\* Parseval
Weight(j) == IF j = 1 \/ (n % 2 = 0 /\ j = n \div 2 + 1) THEN R(1) ELSE R(2)
Energy == Some => NearBy(RSum(Squares(Padded)), RSum(SeqGen(Len(X), LAMBDA j : Weight(j) \otimes (CAbs(X[j]) \otimes CAbs(X[j])))) \oslash n)
\* peaks are bounded by the spectrum; cumulative measures never fall and end at the total
PeakBound == Some => RLe(PeakSeries(X, n, Tw), RAdd("1e-12", RSum(SeqGen(Len(X), LAMBDA j : Weight(j) \otimes CAbs(X[j]))) \oslash n))
Measures == Some => LET s == Padded c == AriasOverTime(s, Dt) IN
    /\ REq(c[1], 0) /\ AllN(n - 1, LAMBDA k : RLe(c[k], c[k + 1])) /\ NearBy(c[n], Arias(s, Dt))
    /\ RLe(CumAbsVel(s, Dt), (Accel \otimes (Dt \otimes n)) \otimes PeakOf(s))
\* degree one (peaks, spectrum, velocity) and two (Arias) in the record
Twice == SeqMap(a, LAMBDA v : R(2) \otimes v)
Homogeneous == Some => LET Y == Dft(Twice, n, Tw) w == AngFreqs(n, Dt) IN
    /\ AllN(Len(X), LAMBDA j : CClose(Y[j], CScale(2, X[j]), "1e-9", "1e-12"))
    /\ NearBy(Arias(SeriesOf(Y, n, Tw), Dt), R(4) \otimes Arias(SeriesOf(X, n, Tw), Dt))
    /\ NearBy(PeakSeries(Through(VelTF(w), Y), n, Tw), R(2) \otimes PeakSeries(Through(VelTF(w), X), n, Tw))
\* a very stiff oscillator follows the record; a very soft one hardly responds
Oscillator(f0) == PeakSeries(Through(SdofTF(Freqs(n, Dt), f0, "0.05"), X), n, Tw)
Stiff == Some => RClose(Oscillator(100000), PeakOf(SeriesOf(X, n, Tw)), "1e-4", "1e-4")
Soft == Some => LET z == Through(SdofTF(Freqs(n, Dt), "1e-4", "0.05"), X) IN AllN(Len(z) - 1, LAMBDA j : RLt(CAbs(z[j + 1]), "1e-4"))
=============================================================================
