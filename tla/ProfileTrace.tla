---------------------------- MODULE ProfileTrace ----------------------------
(* Traces of the real Profile/Layer objects against Profile.  One event per *)
(* public call, with what the object reports after it.                      *)
EXTENDS Profile, TraceBase
VARIABLE l
vars == <<layers, wt, l>>

LayersOf(e) == SeqMap(e.layers, LAMBDA x : NewLayer(x.th, x.uw))

NextLayers(e) ==
    CASE e.ev = "new"     -> DoNew(LayersOf(e))
      [] e.ev = "append"  -> DoAppend(layers, NewLayer(e.th, e.uw))
      [] e.ev = "insert"  -> DoInsert(layers, InsertPos(Len(layers), e.at), NewLayer(e.th, e.uw))
      [] e.ev = "thick"   -> DoSetThickness(layers, e.at, e.th)
      [] OTHER            -> layers
NextWt(e) == IF e.ev \in {"new", "wt"} THEN R(e.wt) ELSE wt

\* each value of s at its first occurrence
Firsts(s) == LET at == {i \in 1..Len(s) : \A j \in 1..i - 1 : s[j] # s[i]} IN
    SelectSeq([i \in 1..Len(s) |-> IF i \in at THEN s[i] ELSE 0], LAMBDA x : x # 0)
\* what the object reports (o) for the column ls with water table w
Judge(o, ls, w) ==
    LET n == Len(ls) IN
    IF Len(o.depth) # n THEN {"LayerCount"} ELSE
    Chk("Depth", NearS(o.depth, SeqGen(n, LAMBDA i : DefDepth(ls, i))))
    \cup Chk("DepthArray", NearS(o.pdepth, SeqGen(n, LAMBDA i : DefDepth(ls, i))))
    \cup Chk("Thickness", NearS(o.thick, SeqGen(n, LAMBDA i : ls[i].th)))
    \cup Chk("ThicknessArray", NearS(o.pthick, SeqGen(n, LAMBDA i : ls[i].th)))
    \cup Chk("DepthBase", NearS(o.base, SeqGen(n, LAMBDA i : DefDepth(ls, i) \oplus ls[i].th)))
    \cup Chk("DepthMid", NearS(o.mid, SeqGen(n, LAMBDA i : DefDepth(ls, i) \oplus (ls[i].th \otimes "0.5"))))
    \cup Chk("DepthMidArray", NearS(o.pmid, SeqGen(n, LAMBDA i : DefDepth(ls, i) \oplus (ls[i].th \otimes "0.5"))))
    \cup Chk("UnitWt", NearS(o.uw, SeqGen(n, LAMBDA i : ls[i].uw)))
    \cup Chk("Density", NearS(o.density, SeqGen(n, LAMBDA i : ls[i].uw \oslash Gravity)))
    \cup Chk("LayerOrder", o.count = n /\ o.index = [i \in 1..n |-> i])
    \cup Chk("SoilTypesOnce", o.types = Firsts(o.sts))
    \cup Chk("Table", /\ NearS(o.frame.depth, SeqGen(n, LAMBDA i : DefDepth(ls, i)))
                     /\ NearS(o.frame.thickness, SeqGen(n, LAMBDA i : ls[i].th))
                     /\ NearS(o.frame.unit_wt, SeqGen(n, LAMBDA i : ls[i].uw))
                     /\ NearS(o.frame.shear_vel, o.vs))
    \cup Chk("StressTop", NearS(o.sv, SeqGen(n, LAMBDA i : DefSv(ls, i))))
    \cup UNION {LET q  == o.q[k]
                    la == [ls[q.i] EXCEPT !.depth = DefDepth(ls, q.i), !.sv = DefSv(ls, q.i)]
                    sv == StressVert(la, q.w)
                    se == StressVertEff(la, q.w, Gravity, w)
                IN Chk("Raised", q.raised = "")
                   \cup Chk2(q.raised = "", "TotalStress", Near(q.tot, sv))
                   \cup Chk2(q.raised = "", "PorePressure",
                             Near(q.pp, PorePressure(Gravity, w, la.depth \oplus q.w)))
                   \cup Chk2(q.raised = "", "EffectiveStress", RClose(q.eff, se, "1e-8", "1e-7"))
                   \cup Chk2(q.raised = "", "MeanStress", RClose(q.mean, MeanOf(sv, q.k0), "1e-8", "1e-7"))
                   \cup Chk2(q.raised = "", "MeanEffStress", RClose(q.meaneff, MeanOf(se, q.k0), "1e-8", "1e-7"))
                : k \in 1..Len(o.q)}

Failing(e, ls, w) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE IF DOMAIN e.obs = {} THEN {}        \* not looked at: the same beginning is in another history
    ELSE Judge(e.obs, ls, w)
         \cup Chk("ColumnInvariant", GeometryOK' /\ Contiguous' /\ StartsAtSurface')

Init == layers = <<>> /\ wt = R(0) /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ layers' = NextLayers(e)
           /\ wt' = NextWt(e)
           /\ Report(l, Failing(e, layers', wt'))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
