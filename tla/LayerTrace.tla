----------------------------- MODULE LayerTrace -----------------------------
(* Histories of one layer object of the implementation.                     *)
EXTENDS LayerDyn, TraceBase
VARIABLES la, l
vars == <<la, l>>

NextLayer(e) ==
    CASE e.ev = "new"    -> Make(e.soil, e.vel, IF e.dmin = "None" THEN SoilDmin(e.soil) ELSE e.dmin)
      [] e.ev = "strain" -> SetStrain(la, e.x)
      [] e.ev = "vel"    -> SetVel(la, e.x)
      [] e.ev = "dmin"   -> SetDmin(la, e.x)
      [] e.ev = "reset"  -> Reset(la)
      [] e.ev = "smax"   -> SetMaxStrain(la, e.x)
      [] OTHER -> la

\* a property given as one value per frequency or as one value for all
Same(got, want) == LET n == MaxLen(got, want) IN
    /\ Len(got) \in {1, n} /\ Len(want) \in {1, n}
    /\ AllN(n, LAMBDA i : RClose(At(got, i), At(want, i), "1e-8", "1e-12"))

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE IF e.ev = "soil" THEN      \* a soil type, and a copy of it
         Chk("SoilTypeCopied", e.apart /\ \A o \in {e.obs[1], e.obs[2]} : o.rec = e.soil /\ o.name = e.name)
         \cup Chk("SoilTypeNonlinear", \A o \in {e.obs[1], e.obs[2]} : o.nl = Nonlinear(e.soil))
         \cup Chk("SoilTypeProperties", \A o \in {e.obs[1], e.obs[2]} :
               /\ Near(o.rho, Density(e.soil))
               /\ Near(o.dmin, SoilDmin(e.soil))
               /\ RLt(0, SoilDmin(e.soil)) => Near(o.q, R(1) \oslash (R(2) \otimes SoilDmin(e.soil))))
    ELSE LET m == la' o == e.o IN
         IF e.ev = "adj" THEN
              Chk("AdjustedDampingCurve", IF Len(m.soil.dd) = 1
                  THEN NearS(e.x, m.soil.dd[1].x) /\ Same(e.y, SeqMap(m.soil.dd[1].x, LAMBDA s : DampingAt(m, s)))
                  ELSE Same(e.y, <<R(m.dmin)>>))
         ELSE IF DOMAIN o = {} THEN {}        \* not looked at: the same beginning is in another history
         ELSE Chk("Modulus", Same(o.G, m.G))
         \cup Chk("Damping", Same(o.D, m.D))
         \cup Chk("InitialModulus", Near(o.G0, InitialMod(m)))
         \cup Chk("Velocity", Same(o.vs, Velocity(m)))
         \cup Chk("Reduction", Same(o.mr, Reduction(m)))
         \cup Chk("Strain", Same(o.eps, m.eps))
         \cup Chk("MinDamping", Near(o.dmin, m.dmin))
         \cup Chk("InitialVelocity", Near(o.vel, m.vel))
         \cup Chk("EffectiveStress", Same(o.te, StressEff(m)))
         \cup Chk2(m.assigned, "Error", LET w == MaxError(m) IN
                     IF REq(w, "inf") THEN REq(o.err, "inf") ELSE RClose(o.err, w, "1e-6", "1e-6"))
         \cup Chk("MaximumStrain", IF m.smax = <<>> THEN o.smax = "None" ELSE Near(o.smax, m.smax[1]))
         \cup Chk2(m.smax # <<>>, "MaximumStress", Same(o.tm, StressMax(m)))

Init == la = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ la' = NextLayer(Trace[l])
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
