----------------------------- MODULE Quantities -----------------------------
(* What each output records, from the layers after a calculation, the motion *)
(* and the input location.                                                   *)
(* A layer is [rho, G, D, th, uw, vel, smax]; x is [ls, wt, col, lin, m] with  *)
(* motion m = [w, f, X, n, dt, tw] (X: discrete spectrum of the record), or a *)
(* random-vibration motion [w, f, S, dur].        *)
EXTENDS Waves, Signal, Rvt

Top(ls, i) == RSum(SeqGen(i - 1, LAMBDA j : ls[j].th))
MidDepth(ls, i) == Top(ls, i) \oplus (R(ls[i].th) \oslash 2)
RECURSIVE LayerAt(_, _, _)
\* the layer whose top is at or above the depth and whose base is below it, else the half-space
LayerAt(ls, d, i) == IF i = Len(ls) \/ RLt(d, Top(ls, i + 1)) THEN i ELSE LayerAt(ls, d, i + 1)
\* o is [f, index, depth]; where the depth is "None" the index counts from 0, from the end when negative
Place(ls, o) ==
    IF o.depth = "None" THEN [i |-> IF o.index < 0 THEN Len(ls) + o.index + 1 ELSE o.index + 1, z |-> R(0), f |-> o.f]
    ELSE LET i == LayerAt(ls, o.depth, 1) IN [i |-> i, z |-> R(o.depth) \ominus Top(ls, i), f |-> o.f]

VertStress(ls, i, z) == RSum(SeqGen(i - 1, LAMBDA j : R(ls[j].th) \otimes ls[j].uw)) \oplus (R(z) \otimes ls[i].uw)
EffStress(x, i, z) == VertStress(x.ls, i, z) \ominus (Accel \otimes RMax((Top(x.ls, i) \oplus z) \ominus x.wt, 0))

TFs(x, Op(_)) == SeqGen(Len(x.m.w), LAMBDA j : Op(j))
AccelTo(x, o) == TFs(x, LAMBDA j : AccelTF(x.col, x.lin, Place(x.ls, o), j))
StrainAt(x, o) == TFs(x, LAMBDA j : StrainTF(x.col, x.lin, Place(x.ls, o), j))
StressAt(x, o, damped) == TFs(x, LAMBDA j : StressTF(x.col, x.lin, Place(x.ls, o), damped, j))
Rec(x, tf) == SeriesOf(Through(tf, x.m.X), x.m.n, x.m.tw)
Series1(x) == x.m.kind = "ts"
PeakThrough(x, tf) == IF Series1(x) THEN PeakOf(Rec(x, tf)) ELSE RvtPeak(x.m, tf)
Spectral(x, tf, f0, d) == PeakThrough(x, Through(SdofTF(x.m.f, f0, d), tf))
AmpAt(x, tf, j) == IF Series1(x) THEN R(x.m.dt) \otimes CAbs(CMul(tf[j], x.m.X[j])) ELSE CAbs(tf[j]) \otimes x.m.S[j]
Scaled(s, k) == SeqMap(s, LAMBDA v : R(v) \otimes k)

Sampled(x, fr, y, bw) == IF bw = "None" THEN SeqMap(fr, LAMBDA f : Interp(x.m.f, y, f))
                         ELSE SeqMap(fr, LAMBDA f : KoSmooth(x.m.f, y, f, bw))
Above(x) == Len(x.ls) - 1
Tops(x) == SeqGen(Len(x.ls), LAMBDA i : Top(x.ls, i))
Mids(x) == <<R(0)>> \o SeqGen(Above(x), LAMBDA i : MidDepth(x.ls, i))
\* one value per layer above the half-space; the first also at the surface
PerLayer(x, Op(_)) == LET s == SeqGen(Above(x), LAMBDA i : Op(i)) IN <<s[1]>> \o s

\* amplification at a depth against frequency: of the Fourier amplitudes, straight against the
\* logarithm of frequency, or of the response spectra relative to the input motion
Whole(x) == TFs(x, LAMBDA j : <<R(1), R(0)>>)
Positive(x) == LET w == x.m.f IN IF RLt(0, w[1]) THEN 1 ELSE 2
AmplifAt(x, o, metric, freqs, d) ==
    LET tf == AccelTo(x, o) p == Positive(x) IN
    IF metric = "site_amp" THEN SeqMap(freqs, LAMBDA f : Spectral(x, tf, f, d) \oslash Spectral(x, Whole(x), f, d))
    ELSE LET lf == SeqGen(Len(tf) - p + 1, LAMBDA j : RLn(x.m.f[j + p - 1]))
             y == SeqGen(Len(tf) - p + 1, LAMBDA j : CAbs(tf[j + p - 1])) IN
         SeqMap(freqs, LAMBDA f : Interp(lf, y, RLn(f)))
Amplif(x, e) ==
    LET o(k) == [f |-> e.field, index |-> 0, depth |-> e.depths[k]]
        rows == SeqGen(Len(e.depths), LAMBDA k : AmplifAt(x, o(k), e.metric, e.freqs, e.damping))
        last == rows[Len(rows)] IN
    IF e.normalized THEN SeqMap(rows, LAMBDA row : SeqGen(Len(row), LAMBDA k : row[k] \oslash last[k])) ELSE rows

Values(x, e) ==
    CASE e.kind = "accel" -> Rec(x, AccelTo(x, e.loc))
      [] e.kind = "arias" -> AriasOverTime(Rec(x, AccelTo(x, e.loc)), x.m.dt)
      [] e.kind = "strain" -> Scaled(Rec(x, StrainAt(x, e.loc)), IF e.percent THEN 100 ELSE 1)
      [] e.kind = "stress" ->
           LET p == Place(x.ls, e.loc) IN
           Scaled(Rec(x, StressAt(x, e.loc, e.damped)), IF e.normalized THEN R(1) \oslash EffStress(x, p.i, p.z) ELSE R(1))
      [] e.kind = "fas" -> LET tf == AccelTo(x, e.loc) IN
           Sampled(x, e.freqs, SeqGen(Len(tf), LAMBDA j : AmpAt(x, tf, j)), e.bw)
      [] e.kind = "rs" -> LET tf == AccelTo(x, e.loc) IN SeqMap(e.freqs, LAMBDA f : Spectral(x, tf, f, e.damping))
      [] e.kind = "tf" -> LET a == Place(x.ls, e.loc_in) b == Place(x.ls, e.loc) IN
           Sampled(x, e.freqs, TFs(x, LAMBDA j : CAbs(AccelTF(x.col, a, b, j))), e.bw)
      [] e.kind = "tfc" -> LET a == Place(x.ls, e.loc_in) b == Place(x.ls, e.loc) tf == TFs(x, LAMBDA j : AccelTF(x.col, a, b, j)) IN
           Sampled(x, e.freqs, SeqMap(tf, LAMBDA z : CRe(z)), "None") \o Sampled(x, e.freqs, SeqMap(tf, LAMBDA z : CIm(z)), "None")
      [] e.kind = "rsr" -> LET a == AccelTo(x, e.loc_in) b == AccelTo(x, e.loc) IN
           SeqMap(e.freqs, LAMBDA f : Spectral(x, b, f, e.damping) \oslash Spectral(x, a, f, e.damping))
      [] e.kind = "maxstrain" -> <<R(0)>> \o SeqGen(Above(x), LAMBDA i : R(x.ls[i].smax))
      [] e.kind = "damping" -> PerLayer(x, LAMBDA i : R(x.ls[i].D[1]))
      [] e.kind = "modreduc" -> PerLayer(x, LAMBDA i : R(x.ls[i].G[1]) \oslash ((R(x.ls[i].rho) \otimes x.ls[i].vel) \otimes x.ls[i].vel))
      [] e.kind = "initvel" -> PerLayer(x, LAMBDA i : R(x.ls[i].vel))
      [] e.kind = "compvel" -> PerLayer(x, LAMBDA i : FoldN(Len(x.ls[i].G), R("inf"), LAMBDA acc, j :
                                 RMin(acc, RSqrt(R(x.ls[i].G[j]) \oslash x.ls[i].rho))))
      [] e.kind = "csr" -> PerLayer(x, LAMBDA i : ("0.65" \otimes (R(x.ls[i].G[1]) \otimes x.ls[i].smax))
                                 \oslash EffStress(x, i, R(x.ls[i].th) \oslash 2))
      [] e.kind = "maxaccel" -> SeqGen(Len(x.ls), LAMBDA i :
           PeakThrough(x, TFs(x, LAMBDA j : AccelTF(x.col, x.lin, [i |-> i, z |-> R(0), f |-> "within"], j))))
Refs(x, e) ==
    CASE e.kind \in {"accel", "arias", "strain", "stress"} -> SeqGen(x.m.n, LAMBDA k : R(x.m.dt) \otimes (k - 1))
      [] e.kind \in {"fas", "rs", "tf", "tfc", "rsr"} -> SeqMap(e.freqs, LAMBDA f : R(f))
      [] e.kind \in {"maxstrain", "csr"} -> Mids(x)
      [] OTHER -> Tops(x)
\* spectra also by period
Periods(e) == IF e.kind \in {"rs", "rsr"} THEN SeqMap(e.freqs, LAMBDA f : R(1) \oslash f) ELSE <<>>
=============================================================================
