---------------------------- MODULE LookupTrace ----------------------------
(* Which layer a depth or an index names, on profiles with an edit history. *)
(* The column itself is maintained by the specification (Profile), never    *)
(* read from the implementation.                                            *)
EXTENDS Profile, TraceBase
VARIABLE l
vars == <<layers, wt, l>>

NextLayers(e) ==
    CASE e.ev = "new"     -> DoNew(SeqMap(e.layers, LAMBDA x : NewLayer(x.th, x.uw)))
      [] e.ev = "append"  -> DoAppend(layers, NewLayer(e.th, e.uw))
      [] e.ev = "insert"  -> DoInsert(layers, e.at, NewLayer(e.th, e.uw))
      [] e.ev = "thick"   -> DoSetThickness(layers, e.at, e.th)
      [] OTHER            -> layers

\* the layer that contains depth d (half-open intervals, half-space below)
LookupIndex(ls, d) ==
    LET hit == {i \in 1..Len(ls) - 1 : RLe(ls[i].depth, d) /\ RLt(d, Base(ls[i]))}
    IN IF hit = {} THEN Len(ls) ELSE CHOOSE i \in hit : TRUE
\* Within rounding of an interface (but not at it) either neighbour is right.
OnInterface(ls, d) == \E i \in 1..Len(ls) : REq(ls[i].depth, d)
NearInterface(ls, d) == {i \in 1..Len(ls) : RClose(ls[i].depth, d, "1e-12", "1e-12")}
Allowed(ls, d) ==
    LET k == LookupIndex(ls, d) IN
    IF OnInterface(ls, d) \/ NearInterface(ls, d) = {} THEN {k}
    ELSE {k} \cup {i \in 1..Len(ls) : \E j \in NearInterface(ls, d) : i = j \/ i = j - 1}

Offset(ls, i, d) == R(d) \ominus ls[i].depth
StressAt(la, within, eff, w) ==
    IF eff THEN StressVertEff(la, within, Gravity, w) ELSE StressVert(la, within)
NearStress(a, b) == RClose(a, b, "1e-8", "1e-7")

\* e.i / e.li / e.lpos are 1-based; li is Location.index, lpos where the very
\* layer object the location carries sits in the profile
Place(e, i, within, w) ==
    Chk("LocationIndex", e.li = i)
    \cup Chk("LocationLayer", e.lpos = i)
    \cup Chk("LocationOffset", RClose(e.lw, within, "1e-9", "1e-9"))
    \cup Chk("LocationWaveField", e.lwf = e.wf)
    \cup Chk2(e.stressable, "LocationStress",
              NearStress(e.ltot, StressAt(layers[i], within, FALSE, w))
              /\ NearStress(e.leff, StressAt(layers[i], within, TRUE, w)))

Failing(e) ==
    IF e.ev = "refuse" THEN Chk("PlaceRefused_" \o e.what, e.raised # "")
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "find" ->
              Chk("LookupIndex", e.i \in Allowed(layers, e.d))
              \cup Chk2(e.i \in 1..Len(layers), "LookupOffset",
                        RClose(e.within, Offset(layers, e.i, e.d), "1e-9", "1e-9"))
           [] e.ev = "locdepth" ->
              IF e.li \notin Allowed(layers, e.d) THEN {"LocationIndex"}
              ELSE Place(e, e.li, Offset(layers, e.li, e.d), wt)
           [] e.ev = "locindex" ->
              Place(e, IF e.given >= 0 THEN e.given + 1 ELSE Len(layers) + 1 + e.given, R(0), wt)
           [] OTHER -> {}

Init == layers = <<>> /\ wt = R(0) /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, Failing(e))
           /\ layers' = NextLayers(e)
           /\ wt' = IF e.ev \in {"new", "wt"} THEN R(e.wt) ELSE wt
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
