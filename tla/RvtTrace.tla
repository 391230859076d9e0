------------------------------ MODULE RvtTrace ------------------------------
(* Random-vibration motions of the implementation. State: the motion made.   *)
EXTENDS Rvt, Signal, TraceBase
VARIABLES x, m, l
vars == <<x, m, l>>

Has(r, f) == f \in DOMAIN r
Davenport == x.peak = "D64"
Sorted(f) == \A i \in 1..(Len(f) - 1) : RLe(f[i], f[i + 1])
Made(e) ==
    LET o == e.o IN
    Chk("AngularFrequencies", Len(o.w) = Len(o.f) /\ AllN(Len(o.f), LAMBDA j : Near(o.w[j], Omega(o.f[j]))))
    \cup Chk("OneAmplitudePerFrequency", Len(o.S) = Len(o.f) /\ o.n = Len(o.f) /\ Sorted(o.f))
    \cup Chk("Duration", IF Has(e.x, "dur") THEN Near(o.dur, e.x.dur) ELSE Near(o.dur, SourceDuration(e.x.src)))
    \cup CASE e.x.kind = "rvt" -> Chk("Spectrum", NearS(o.f, e.x.f) /\ NearS(o.S, e.x.S))
           [] e.x.kind = "source" -> Chk("SourceSpectrum", \A k \in 1..Len(e.x.pick) : RClose(o.S[e.x.pick[k]], SourceAmp(e.x.src, o.f[e.x.pick[k]]), "1e-6", 0))
           [] OTHER -> {}

W == SeqMap(m.f, LAMBDA f : Omega(f))
Through1(a, b) == SeqGen(Len(a), LAMBDA j : CMul(a[j], b[j]))
Judge(v, tf) == IF Davenport THEN Chk("Peak", RClose(v, RvtPeak(m, tf), "1e-7", "1e-12")) ELSE Chk("PositivePeak", RFinite(v) /\ RLt(0, v))

Failing(e) ==
    IF e.ev = "crash" THEN {"CallRaised"}
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "motion" -> Made(e)
           [] e.ev = "pga" -> Judge(e.v, AllPass(m))
           [] e.ev = "pgv" -> Judge(e.v, VelTF(W))
           [] e.ev \in {"peak", "pgatf"} -> Judge(e.v, e.tf)
           [] e.ev = "pgvtf" -> Judge(e.v, Through1(VelTF(W), e.tf))
           [] e.ev = "osc" -> Chk("OneResponsePerOscillator", Len(e.v) = Len(e.freqs))
                              \cup UNION {Judge(e.v[i], LET o == SdofTF(m.f, e.freqs[i], e.d) IN IF e.tf = <<>> THEN o ELSE Through1(o, e.tf)) : i \in 1..Len(e.v)}
           [] e.ev = "scaled" -> Chk("Scaled", RClose(e.v, R(e.k) \otimes e.v0, "1e-7", 0))
           [] e.ev = "target" -> Chk2(x.peak \in {"D64", "None", "V75"}, "Compatible", Len(e.v) = Len(x.sa) /\ AllN(Len(e.v), LAMBDA i : RClose(e.v[i], x.sa[i], "0.05", 0)))

Init == x = <<>> /\ m = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, Failing(e))
           /\ x' = IF e.ev = "motion" THEN e.x ELSE x
           /\ m' = IF e.ev = "motion" /\ e.raised = "" THEN [f |-> e.o.f, S |-> e.o.S, dur |-> e.o.dur] ELSE m
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
