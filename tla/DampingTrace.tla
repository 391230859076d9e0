---------------------------- MODULE DampingTrace ----------------------------
(* Site attenuation, scattering and adjusted damping of real profiles.       *)
(* State: the column last observed (before the event).                       *)
EXTENDS Damping, TraceBase
VARIABLES ls, l
vars == <<ls, l>>

Initial(o) == SeqMap(o, LAMBDA x : [th |-> x.th, v |-> x.v, d |-> x.dmin, rho |-> x.rho])
Current(o) == SeqMap(o, LAMBDA x : [th |-> x.th, v |-> x.cur, d |-> x.dmin, rho |-> x.rho])
NearK(a, b) == RClose(a, b, "1e-6", "1e-8")
\* everything but the damping
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i].th, b[i].th) /\ Near(a[i].v, b[i].v) /\ a[i].st = b[i].st /\ Near(a[i].rho, b[i].rho)
SameAll(a, b) == Same(a, b) /\ \A i \in 1..Len(a) : Near(a[i].dmin, b[i].dmin)
Fs(e) == IF e.fs = <<>> THEN DefaultFreqs ELSE e.fs

Adjusted(e) ==
    LET c == Initial(e.before)
        s == IF e.raised = "" THEN R(e.scatter) ELSE Scatter(c, DefaultFreqs)
        s2 == IF e.raised # "" /\ e.inplace THEN Scatter(Current(e.before), DefaultFreqs) ELSE s
        rem == Remainder(c, e.out, e.target, s)
        can == (\E i \in Selected(c, e.out) : RLt(0, c[i].th)) /\ RLt("1e-9", rem) /\ RLt("1e-9", Remainder(c, e.out, e.target, s2))
        cannot == (\A i \in Selected(c, e.out) : ~RLt(0, c[i].th)) \/ RLt(rem, "-1e-9")
        n == Len(c)
    IN IF e.raised # "" THEN
         Chk("CallRaised", e.raised = "RuntimeError" /\ ~can) \cup Chk("RefusedUnchanged", SameAll(e.given, e.before))
       ELSE Chk("Refuse", ~cannot)
            \cup Chk("Scatter", NearK(e.scatter, Scatter(c, DefaultFreqs)) \/ (e.inplace /\ NearK(e.scatter, Scatter(Current(e.before), DefaultFreqs))))
            \cup Chk("SameColumn", Same(e.after, e.before) /\ REq(e.wt, e.oldwt))
            \cup IF Len(e.after) # n THEN {} ELSE
                 LET a == Initial(e.after) w == Adjust(c, e.out, e.target, e.scatter) IN
                 Chk("Target", RClose(SiteAtten(a) \oplus e.scatter, e.target, "1e-8", "1e-12"))
                 \cup Chk("Excluded", \A i \in 1..n : e.out[i] => Near(a[i].d, c[i].d))
                 \cup Chk("InverseToVelocity", \A i, j \in Selected(c, e.out) : Near(R(a[i].d) \otimes a[i].v, R(a[j].d) \otimes a[j].v))
                 \cup Chk2(can, "Adjusted", \A i \in 1..n : Near(a[i].d, w[i].d))
                 \cup Chk("Reset", \A i \in 1..n : e.after[i].D = <<e.after[i].dmin>> /\ Near(e.after[i].cur, e.after[i].v))
                 \cup Chk("ReportedAttenuation", Near(e.atten, SiteAtten(a)))
                 \cup IF e.inplace THEN Chk("InPlace", e.same /\ SameAll(e.given, e.after))
                      ELSE Chk("GivenUnchanged", ~e.same /\ SameAll(e.given, e.before) /\ e.apart)

Failing(e) ==
    IF e.ev = "adjust" THEN Adjusted(e)
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "atten" -> Chk("SiteAttenuation", Near(e.v, SiteAtten(Initial(e.ls)))) 
                               \cup Chk("LayerAttenuation", NearS(e.each, SeqMap(Initial(e.ls), Incr)))
           [] e.ev = "scatter" -> Chk("Scatter", NearK(e.v, Scatter(Current(e.ls), Fs(e)))) \cup Chk("GivenUnchanged", e.kept)
           [] OTHER -> {}

Init == ls = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, Failing(e) \cup (IF e.ev = "adjust" /\ ls # <<>> THEN Chk("History", SameAll(ls, e.before)) ELSE {}))
           /\ ls' = CASE e.ev = "profile" -> e.ls
                      [] e.ev = "adjust" -> e.given
                      [] OTHER -> ls
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
