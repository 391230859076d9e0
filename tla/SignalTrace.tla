---------------------------- MODULE SignalTrace ----------------------------
(* Time-series motions of the implementation: what they are and every        *)
(* measure read from them, in any order.  State: the motions of the history.  *)
EXTENDS Signal, TraceBase
VARIABLES ms, l
vars == <<ms, l>>

Make(e) == LET n == IF e.falen = 0 THEN NextPow2(Len(e.a)) ELSE e.falen tw == Twiddle(n) IN
    [a |-> e.a, dt |-> e.dt, n |-> n, tw |-> tw, X |-> Dft(e.a, n, tw), f |-> Freqs(n, e.dt), w |-> AngFreqs(n, e.dt)]
Resp(m, e) == SeriesOf(IF e.tf = <<>> THEN m.X ELSE Through(e.tf, m.X), m.n, m.tw)

Top1(s) == FoldN(Len(s), R(0), LAMBDA acc, k : RMax(acc, RAbs(s[k])))
CTop(s) == FoldN(Len(s), R(0), LAMBDA acc, k : RMax(acc, CAbs(s[k])))
\* the differences allowed: rounding, relative to the largest value
SameS(got, want) == Len(got) = Len(want) /\ AllN(Len(got), LAMBDA k : RClose(got[k], want[k], "1e-9", RAdd("1e-300", RMul("1e-9", Top1(want)))))
SameC(got, want) == Len(got) = Len(want) /\ AllN(Len(got), LAMBDA k : CClose(got[k], want[k], "1e-9", RAdd("1e-300", RMul("1e-9", CTop(want)))))
Same1(got, want) == RClose(got, want, "1e-8", "1e-300")

\* the part of a record a peak is taken from may be small against the terms of its sum
Sized(got, want, X) == RClose(got, want, "1e-8", RAdd("1e-300", RMul("1e-10", CTop(X))))

Read(m, e) ==
    CASE e.what \in {"pga", "peak"} -> PeakOf(Resp(m, e))
      [] e.what = "pgv" -> PeakSeries(Through(VelTF(m.w), IF e.tf = <<>> THEN m.X ELSE Through(e.tf, m.X)), m.n, m.tw)
      [] e.what = "arias" -> Arias(Resp(m, e), m.dt)
      [] e.what = "cav" -> CumAbsVel(Resp(m, e), m.dt)
Osc(m, e) == SeqMap(e.fo, LAMBDA f0 :
    PeakSeries(Through(SdofTF(m.f, f0, e.damp), IF e.tf = <<>> THEN m.X ELSE Through(e.tf, m.X)), m.n, m.tw))

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE LET m == ms'[e.m] IN
    CASE e.ev = "new" ->
           Chk("Accelerations", SameS(e.accels, e.a)) \cup Chk("TimeStep", Same1(e.dt2, e.dt))
           \cup Chk("Times", SameS(e.times, SeqGen(Len(e.a), LAMBDA k : R(e.dt) \otimes (k - 1))))
           \cup Chk("Frequencies", SameS(e.freqs, m.f))
           \cup Chk("AngularFrequencies", SameS(e.w, m.w))
           \cup Chk("FourierAmplitudes", SameC(e.fas, SeqMap(m.X, LAMBDA z : CScale(m.dt, z))))
      [] e.ev = "again" ->      \* the motion has not changed
           Chk("AccelerationsKept", SameS(e.accels, m.a)) \cup Chk("FrequenciesKept", SameS(e.freqs, m.f))
           \cup Chk("SpectrumKept", SameC(e.fas, SeqMap(m.X, LAMBDA z : CScale(m.dt, z))))
      [] e.ev = "series" -> Chk("TimeSeries", SameS(e.v, Resp(m, e)))
      [] e.ev = "read" -> Chk("Measure_" \o e.what, Sized(e.v, Read(m, e), m.X))
      [] e.ev = "osc" -> Chk("Oscillator", LET want == Osc(m, e) IN Len(e.v) = Len(want) /\ AllN(Len(want), LAMBDA k : Sized(e.v[k], want[k], m.X)))

Init == ms = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ ms' = IF e.ev = "new" THEN (IF e.m = 1 THEN <<>> ELSE ms) \o <<Make(e)>> ELSE ms
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
