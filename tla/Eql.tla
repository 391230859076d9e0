-------------------------------- MODULE Eql --------------------------------
(* The equivalent-linear calculation: layers (LayerDyn) and waves (Waves)   *)
(* iterated under the control of EqlLoop.                                    *)
EXTENDS LayerDyn, Waves, EqlLoop, Fdm, Signal, Rvt

\* ------------------------------------------------------------------ motions
\* kind "sum":    peak = sum of weights times |tf|
\* kind "table":  peak picked from a table by the size of tf (an erratic motion)
\* kind "script": peaks given per iteration and layer
\* kind "rvt":    random-vibration peak
\* kind "ts":     peak of the inverse discrete Fourier transform of tf times the spectrum
SizeOf(tf) == RSum(SeqMap(tf, LAMBDA z : CAbs(z)))
TablePick(m, tf) == LET u == m.c \otimes RLn(SizeOf(tf))
                        f == u \ominus R(RFloor(u))
                    IN 1 + RFloor(f \otimes R(Len(m.table)))
Peak(m, tf, it, i) ==
    CASE m.kind = "sum" -> RSum(SeqGen(Len(tf), LAMBDA j : R(m.a[j]) \otimes CAbs(tf[j])))
      [] m.kind = "table" -> R(m.table[TablePick(m, tf)])
      [] m.kind = "script" -> R(m.script[IF it + 1 > Len(m.script) THEN Len(m.script) ELSE it + 1][i])
      [] m.kind = "ts" -> PeakSeries(SeqGen(Len(tf), LAMBDA j : CScale(R(1) \oslash m.dt, CMul(tf[j], m.fas[j]))), m.n, m.tw)
      [] m.kind = "rvt" -> RvtPeak(m, tf)
\* the choice from the table is too close to call
OnEdge(m, tf) == m.kind = "table" /\
    LET u == (m.c \otimes RLn(SizeOf(tf))) \otimes R(Len(m.table)) IN
    RFloor(RAdd(u, "1e-6")) # RFloor(RSub(u, "1e-6"))

\* ------------------------------------------------------------------ the loop
WaveLayer(la, th) == [rho |-> Density(la.soil), G |-> la.G, D |-> la.D, th |-> th]
Mid(ths, i) == [i |-> i, z |-> R(ths[i]) \oslash 2, f |-> "within"]
\* the strains of a layer before capping
LayerStrains(x, tf, pk) ==
    LET eff == x.ratio \otimes pk IN
    IF x.method = "eql" THEN <<eff>>
    ELSE LET s == SeqGen(Len(tf), LAMBDA j : RMul(CAbs(tf[j]), CAbs(x.m.fas[j])))
         IN SeqMap(Raw(x.m.w, s), LAMBDA v : RMul(eff, v))
Capped(x, s) == x.limit # "None" /\ \E j \in 1..Len(s) : RLt(x.limit, s[j])
Cap(x, s) == IF x.limit = "None" THEN s ELSE SeqMap(s, LAMBDA v : RMin(v, x.limit))
TooClose(a, b, rtol) == RLe(RAbs(RSub(a, b)), RMul(rtol, RMax(RAbs(a), RAbs(b))))

\* strain ratio for the magnitude of an earthquake
RatioOf(mag) == (R(mag) \ominus 1) \oslash 10

Result(st, ls, pk, it) == [st |-> st, ls |-> ls, pk |-> pk, it |-> it]
RECURSIVE Loop(_, _, _, _, _)
Loop(x, ls, ths, it, last) ==
    LET n == Len(ls)
        col == Column(SeqGen(n, LAMBDA i : WaveLayer(ls[i], ths[i])), x.m.w)
        tf == SeqGen(n - 1, LAMBDA i : SeqGen(Len(x.m.w), LAMBDA j : StrainTF(col, x.lin, Mid(ths, i), j)))
        pk == SeqGen(n - 1, LAMBDA i : Peak(x.m, tf[i], it, i))
        raw == SeqGen(n - 1, LAMBDA i : LayerStrains(x, tf[i], pk[i]))
        cap == \E i \in 1..n - 1 : Capped(x, raw[i])
        ls2 == SeqGen(n, LAMBDA i : IF i < n THEN SetStrain(ls[i], Cap(x, raw[i])) ELSE ls[i])
        err == FoldN(n - 1, R(0), LAMBDA acc, i : RMax(acc, MaxError(ls2[i])))
        vague == \/ RFinite(err) /\ TooClose(err, x.tol, "1e-5")
                 \/ \E i \in 1..n - 1 : OnEdge(x.m, tf[i])
                 \/ x.limit # "None" /\ \E i \in 1..n - 1 : \E j \in 1..Len(raw[i]) : TooClose(raw[i][j], x.limit, "1e-9")
        d == Decide(it, x.maxit, cap, last, RLt(err, x.tol))
    IN IF vague THEN Result("vague", ls, pk, it + 1)
       ELSE IF d = "go" THEN Loop(x, ls2, ths, it + 1, cap)
       ELSE Result(d, ls2, pk, it + 1)

Start(x, ls) == IF x.reset THEN SeqMap(ls, LAMBDA la : SetStrain(Reset(la), <<(R(x.m.pgv) \oslash 100) \oslash la.vel>>)) ELSE ls
Estimate(x) == [x EXCEPT !.method = "eql", !.tol = "0.01", !.maxit = 15]
Run(x, ls, ths) ==
    IF x.method = "eql" \/ ~x.reset THEN Loop(x, Start(x, ls), ths, 0, FALSE)
    ELSE LET e == Loop(Estimate(x), Start(x, ls), ths, 0, FALSE)
         IN IF e.st \in {"vague", "raised"} THEN e ELSE Loop(x, e.ls, ths, 0, FALSE)
=============================================================================
