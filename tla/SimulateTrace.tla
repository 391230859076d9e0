--------------------------- MODULE SimulateTrace ---------------------------
(* Simulated profiles of the implementation: the operators of Simulate on    *)
(* every profile produced, and of ProfilesTrace on everything else that      *)
(* happens to the seed and to the profiles produced.                         *)
EXTENDS Simulate, ProfilesTrace

Simulated(e) ==
    LET s == ps[e.k].ls
        q == e.obs[Len(e.obs)]
        res == q.ls IN
    Chk("NewProfile", Len(e.obs) = Len(ps) + 1)
    \cup Chk("OthersUnchanged", Untouched(e, 0))
    \cup Chk("NoSharing", NoSharing(e.obs) /\ Distinct(e.obs))
    \cup Chk("Geometry", GeometryOK(q))
    \cup Chk("WaterTable", SameVal(q.wt, ps[e.k].wt))
    \cup CASE e.ev = "sim" ->
              Chk("HalfSpace", HalfSpaceKept(s, res, e.cfg))
              \cup Chk("PositiveLayers", PositiveLayers(res))
              \cup Chk("TotalDepth", DepthKept(s, res))
              \cup (IF e.cfg.thick THEN Chk("LayersLikeSeedAtMiddle", Relayered(s, res, e.cfg))
                    ELSE Chk("LayersKept", LayersKept(s, res, e.cfg)))
              \cup Chk2(e.cfg.st, "OnePerSoilType", OnePerSoilType(s, res, e.cfg))
           [] e.ev = "half" -> Chk("HalfSpaceDepth", HalfSpaceAt(s, res, e.d))

\* a profile of very many layers, summarised.  The layering models used have a
\* rate below 1/2 per metre everywhere: even 20 + 5 layers per metre is out of reach.
Many(e) ==
    LET total == TopOf(ps[e.k].ls, Len(ps[e.k].ls)) IN
    Chk("LayersKept", e.cfg.thick)
    \cup Chk("LayeringRate", RLt(e.layers, R(20) \oplus (R(5) \otimes total)))
    \cup Chk("PositiveLayers", RLt(0, e.thinnest))
    \cup Chk("TotalDepth", RClose(e.total, total, "1e-9", "1e-9"))
    \cup Chk("OthersUnchanged", Untouched(e, 0))

SimFailing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev \in {"sim", "half"} -> Simulated(e)
           [] e.ev = "many" -> Many(e)
           [] e.ev = "count" -> Chk("Count", e.got = e.asked) \cup Chk("OthersUnchanged", Untouched(e, 0))
           [] e.ev = "make" -> Chk("Geometry", \A k \in 1..Len(e.obs) : GeometryOK(e.obs[k]))
           [] OTHER -> Failing(e)

SimNext == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
              /\ ps' = IF e.raised # "" THEN ps ELSE e.obs
              /\ Report(l, SimFailing(e))
           /\ l' = l + 1
SimSpec == Init /\ [][SimNext]_vars
=============================================================================
