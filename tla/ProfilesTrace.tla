--------------------------- MODULE ProfilesTrace ---------------------------
(* Histories over several profile objects: deriving new profiles, editing   *)
(* and calculating with any of them.  State: what every live profile looked *)
(* like after the previous event.                                           *)
EXTENDS Num, TraceBase
VARIABLES ps, l
vars == <<ps, l>>

LayerIds(p) == {p.ls[i].id : i \in 1..Len(p.ls)}
\* what the user gave (and derived geometry), not the iterated properties
Fixed(la) == [id |-> la.id, st |-> la.st, stc |-> la.stc, th |-> la.th, vel |-> la.vel, dmin |-> la.dmin, uw |-> la.uw]
Given(la) == [stc |-> la.stc, th |-> la.th, vel |-> la.vel, dmin |-> la.dmin, uw |-> la.uw]
SameVal(a, b) == RClose(a, b, "1e-12", "1e-15")
SameMaterial(a, b) == a.stc = b.stc /\ SameVal(a.vel, b.vel) /\ SameVal(a.dmin, b.dmin)
SameLayer(a, b) == SameMaterial(a, b) /\ SameVal(a.th, b.th)

SumTh(ls, n) == RSum(SeqGen(n, LAMBDA j : ls[j].th))
GeometryOK(p) ==
    \A i \in 1..Len(p.ls) :
        /\ Near(p.ls[i].depth, SumTh(p.ls, i - 1))
        /\ Near(p.ls[i].sv, RSum(SeqGen(i - 1, LAMBDA j : p.ls[j].th \otimes p.ls[j].uw)))

NoSharing(obs) == \A j, k \in 1..Len(obs) : j < k => LayerIds(obs[j]) \cap LayerIds(obs[k]) = {}
Distinct(obs) == \A k \in 1..Len(obs) : Cardinality(LayerIds(obs[k])) = Len(obs[k].ls)

Untouched(e, changed) ==
    \A k \in 1..Len(ps) : k # changed => e.obs[k] = ps[k]
\* a calculation changes iterated properties only
OnlyIterated(e, k) ==
    /\ Len(e.obs[k].ls) = Len(ps[k].ls) /\ e.obs[k].wt = ps[k].wt
    /\ \A i \in 1..Len(ps[k].ls) :
         /\ Fixed(e.obs[k].ls[i]) = Fixed(ps[k].ls[i])
         /\ e.obs[k].ls[i].depth = ps[k].ls[i].depth /\ e.obs[k].ls[i].sv = ps[k].ls[i].sv

\* --- automatic discretisation
\* layer x is split in equal sublayers no thicker than opt, no more than needed
OptThick(x, e) == (x.vel \oslash e.maxf) \otimes e.frac
SplitCounts(x, e) ==
    IF e.nlonly /\ ~x.nl THEN {1}
    ELSE LET q == R(x.th) \oslash OptThick(x, e)
         IN {IF RCeil(q \otimes s) > 1 THEN RCeil(q \otimes s) ELSE 1 : s \in {"1", "0.999999999", "1.000000001"}}
\* the exact count when the quotient is exactly a whole number or not close to one
ExactCounts(x, e) ==
    LET q == R(x.th) \oslash OptThick(x, e) IN
    IF REq(R(RFloor(q)), q) /\ ~(e.nlonly /\ ~x.nl) THEN {IF RFloor(q) > 1 THEN RFloor(q) ELSE 1}
    ELSE SplitCounts(x, e)
RECURSIVE DiscOK(_, _, _, _, _)
\* source layers src[i..] match result layers res[k..]
DiscOK(src, res, e, i, k) ==
    IF i = Len(src) THEN k = Len(res) /\ SameLayer(res[k], src[i])
    ELSE \E c \in ExactCounts(src[i], e) :
            /\ k + c - 1 < Len(res)
            /\ \A j \in k..(k + c - 1) :
                 SameMaterial(res[j], src[i]) /\ RClose(res[j].th, R(src[i].th) \oslash c, "1e-9", 0)
            /\ DiscOK(src, res, e, i + 1, k + c)

Derived(e, src, res) ==
    CASE e.ev = "copy" ->
           Chk("CopyLayers", Len(res.ls) = Len(src.ls) /\ \A i \in 1..Len(src.ls) : SameLayer(res.ls[i], src.ls[i]))
      [] e.ev = "disc" ->
           Chk("DiscretizedLayers", Len(res.ls) >= Len(src.ls) /\ DiscOK(src.ls, res.ls, e, 1, 1))
           \cup Chk("DiscretizedDepth", Near(SumTh(res.ls, Len(res.ls) - 1), SumTh(src.ls, Len(src.ls) - 1)))

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE Chk("NoSharing", NoSharing(e.obs) /\ Distinct(e.obs))
         \cup Chk("Geometry", \A k \in 1..Len(e.obs) : GeometryOK(e.obs[k]))
         \cup
         CASE e.ev = "make" -> Chk("Others", Untouched(e, 0))
           [] e.ev \in {"copy", "disc"} ->
                Chk("SourceUntouched", Len(e.obs) = Len(ps) + 1 /\ Untouched(e, 0))
                \cup Chk("WaterTable", SameVal(e.obs[Len(e.obs)].wt, ps[e.k].wt))
                \cup Derived(e, ps[e.k], e.obs[Len(e.obs)])
           [] e.ev = "calc" ->
                Chk("OthersUnchanged", Untouched(e, e.k))
                \cup Chk("CalculationKeepsGiven", OnlyIterated(e, e.k))
           [] OTHER ->   \* thick, vel, dmin, wt, append
                Chk("OthersUnchanged", Untouched(e, e.k))
                \cup Chk("EditApplied",
                       CASE e.ev = "wt" -> SameVal(e.obs[e.k].wt, e.x)
                         [] e.ev = "append" -> Len(e.obs[e.k].ls) = Len(ps[e.k].ls) + 1
                         [] e.ev = "thick" -> SameVal(e.obs[e.k].ls[e.at].th, e.x)
                         [] e.ev = "vel" -> SameVal(e.obs[e.k].ls[e.at].vel, e.x)
                         [] e.ev = "dmin" -> SameVal(e.obs[e.k].ls[e.at].dmin, e.x))
                \cup Chk2(e.ev \in {"thick", "vel", "dmin"}, "EditIsLocal",
                       \A i \in 1..Len(ps[e.k].ls) : i # e.at => Fixed(e.obs[e.k].ls[i]) = Fixed(ps[e.k].ls[i]))

Init == ps = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ ps' = IF e.raised # "" THEN ps ELSE e.obs
           /\ Report(l, IF e.ev = "make" /\ e.first
                        THEN Chk("Geometry", \A k \in 1..Len(e.obs) : GeometryOK(e.obs[k])) ELSE Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
