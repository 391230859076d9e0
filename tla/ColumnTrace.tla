----------------------------- MODULE ColumnTrace -----------------------------
(* What profiles say about their velocity column, and the quarter-wavelength *)
(* calculations made with them.  State: the column given (ls) and          *)
(* what the quarter-wavelength calculator last gave (q).                     *)
EXTENDS Column, TraceBase
VARIABLES ls, q, l
vars == <<ls, q, l>>

Col(o) == SeqMap(o, LAMBDA x : [th |-> x.th, v |-> x.v, rho |-> x.rho])
Cur(o) == SeqMap(o, LAMBDA x : [th |-> x.th, v |-> x.cur, rho |-> x.rho])
\* the crustal amplification and site term of a calculation on column c
Amps(e, c, kappa) ==
    LET n == Len(e.f) IN
    Chk("OneValuePerFrequency", Len(e.amp) = n /\ Len(e.site) = n)
    \cup Chk2(Len(e.amp) = n /\ Len(e.site) = n, "Amplification", AllN(n, LAMBDA i : Within(e.amp[i], AmpBand(c, q.method, e.f[i]))))
    \cup Chk2(Len(e.amp) = n /\ Len(e.site) = n, "SiteTerm", AllN(n, LAMBDA i : Near(e.site[i], IF kappa = "None" THEN e.amp[i] ELSE SiteTerm(e.amp[i], kappa, e.f[i]))))
MeanSq(t, v) == RSum(SeqGen(Len(t), LAMBDA i : Sq((R(t[i]) \ominus v[i]) \oslash v[i]))) \oslash Len(t)
Fitted(e, c) ==      \* e.ls is the fitted column, c the one before
    LET n == Len(c) IN
    IF Len(e.ls) # n THEN {"LayerCount"} ELSE
    Chk("SoilTypes", \A i \in 1..n : e.ls[i].st = e.old[i].st /\ Near(e.ls[i].dmin, e.old[i].dmin) /\ Near(e.ls[i].rho, c[i].rho))
    \cup Chk("WaterTable", REq(e.wt, e.oldwt))
    \cup Chk("GivenProfileKept", e.kept)
    \cup Chk("Thicknesses", \A i \in 1..n : IF e.thick /\ i < n
                THEN RLe(R(c[i].th) \otimes "0.499999", e.ls[i].th) /\ RLe(e.ls[i].th, R(c[i].th) \otimes "2.000001") ELSE Near(e.ls[i].th, c[i].th))
    \cup Chk("Velocities", \A i \in 1..n : RLe("99.999", e.ls[i].v) /\ RLe(e.ls[i].v, "4000.001"))
    \cup Chk("HalfSpaceVelocity", e.source \/ Near(e.ls[n].v, c[n].v))
    \cup Chk("SiteAttenuation", IF e.atten THEN RLe("0.000099", e.kappa) /\ RLe(e.kappa, "0.200001") ELSE e.kappa = q.kappa)
    \* what may be adjusted takes part: the target is everywhere above, or everywhere below what it was
    \cup Chk("Adjusts", LET b == IF e.type = "crustal_amp" THEN q.amp ELSE q.site
                             up == \A i \in 1..Len(b) : RLt(R(b[i]) \otimes "1.2", e.target[i]) down == \A i \in 1..Len(b) : RLt(e.target[i], R(b[i]) \otimes "0.8") IN
                         ~(up \/ down) \/ (/\ e.source /\ RLt(110, c[n].v) /\ RLt(c[n].v, 3900) => ~REq(e.ls[n].v, c[n].v)
                                           /\ e.atten /\ e.type = "site_term" /\ RLt("0.001", q.kappa) => ~REq(e.kappa, q.kappa)))
    \cup Chk("NotWorse", LET t == e.target a == IF e.type = "crustal_amp" THEN e.amp ELSE e.site b == IF e.type = "crustal_amp" THEN q.amp ELSE q.site
                         IN RLe(MeanSq(t, a), RAdd(MeanSq(t, b) \otimes "1.000001", "1e-12")))
    \cup Amps(e, Col(e.ls), e.kappa)

Failing(e, c) ==
    IF e.ev = "qwl" /\ e.raised = "RuntimeError" THEN Chk("CallRaised", Reversal(c))
    ELSE IF e.ev = "fit" /\ e.raised = "RuntimeError" THEN {}
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "avg"    -> Chk("TimeAverage", Near(e.v, AvgVel(Cur(e.ls), e.z)))
           [] e.ev = "vs30"   -> Chk("Vs30", Near(e.v, Vs30(c)))
           [] e.ev = "travel" -> Chk("TravelTime", NearS(e.v, SeqMap(e.ls, LAMBDA x : R(x.th) \oslash x.cur)))
                                 \cup Chk("LayerTravelTime", NearS(e.each, e.v))
           [] e.ev = "slow"   -> Chk("Slowness", NearS(e.v, SeqMap(c, Slow)))
           [] e.ev = "rayleigh" -> Chk("SimplifiedRayleigh", Near(e.v, Rayleigh(c)))
           [] e.ev = "qwl"    -> Amps(e, c, q.kappa)
           [] e.ev = "fit"    -> Fitted(e, c)
           [] OTHER -> {}
Column1(e) == IF e.ev \in {"profile", "edit"} /\ e.raised = "" THEN Col(e.ls) ELSE ls

Init == ls = <<>> /\ q = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ ls' = Column1(e)
           /\ Report(l, Failing(e, ls'))
           /\ q' = CASE e.ev = "calc" -> [method |-> e.method, kappa |-> e.kappa, amp |-> <<>>, site |-> <<>>]
                     [] e.ev = "qwl" /\ e.raised = "" -> [q EXCEPT !.amp = e.amp, !.site = e.site]
                     [] OTHER -> q
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
