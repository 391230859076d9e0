----------------------------- MODULE CurveTrace -----------------------------
(* Curve objects of the implementation: construction, replacement of strains *)
(* and values, evaluation; and the published tables.                         *)
EXTENDS Curve, TraceBase
VARIABLES c, l
vars == <<c, l>>

\* the published tables as of the verified release
Published == JsonDeserialize(IOEnv.DATA \o "/published_curves.json")

Limits(p) == IF p = "damping" THEN <<"0", "0.49">> ELSE <<"0.001", "1">>

\* the points of a table may be given in any order
Tabulated(t) ==
    LET pts == SortSeq([i \in 1..Len(t.x) |-> <<t.x[i], t.y[i]>>], LAMBDA a, b : RLt(a[1], b[1]))
    IN [t EXCEPT !.x = [i \in 1..Len(pts) |-> pts[i][1]], !.y = [i \in 1..Len(pts) |-> pts[i][2]]]

NextCurve(e) ==
    CASE e.ev = "new" -> [x |-> e.x, y |-> e.y, lo |-> IF e.deflim THEN Limits(e.param)[1] ELSE e.lo,
                          hi |-> IF e.deflim THEN Limits(e.param)[2] ELSE e.hi]
      [] e.ev = "strains" -> [c EXCEPT !.x = e.x]
      [] e.ev = "values"  -> [c EXCEPT !.y = e.y]
      [] e.ev = "both"    -> [c EXCEPT !.x = e.x, !.y = e.y]
      [] OTHER -> c

Column(y, k) == [i \in 1..Len(y) |-> y[i][k]]

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev \in {"new", "strains", "values", "both"} ->
              Chk("Strains", NearS(e.ox, c'.x))
              \cup Chk("Values", NearS(e.oy, c'.y))
           [] e.ev = "eval" ->
              Chk("ResultShape", Len(e.r) = Len(e.s))
              \cup Chk2(Len(e.r) = Len(e.s), "LogLinear",
                        AllN(Len(e.s), LAMBDA i : RClose(e.r[i], CurveAt(Tabulated(c), e.s[i]), "1e-9", "1e-12")))
           [] e.ev = "family" ->      \* a table of several curves, evaluated at one strain
              Chk("FamilyLogLinear", Len(e.r) = Len(e.y[1]) /\ AllN(Len(e.r), LAMBDA k :
                   RClose(e.r[k], CurveAt([x |-> e.x, y |-> Column(e.y, k), lo |-> Limits(e.param)[1], hi |-> Limits(e.param)[2]], e.s),
                          "1e-9", "1e-12")))
           [] e.ev = "names" -> Chk("PublishedNames", {e.names[i] : i \in 1..Len(e.names)} = DOMAIN Published)
           [] e.ev = "published" ->
              IF e.name \notin DOMAIN Published \/ e.param \notin DOMAIN Published[e.name] THEN {"PublishedUnknown"}
              ELSE LET t == Published[e.name][e.param] IN
                   Chk("PublishedStrains", NearS(e.x, t.strains))
                   \cup Chk("PublishedValues", NearS(e.y, t.values))
                   \cup Chk("PublishedKind", e.kind = e.param)

Init == c = [x |-> <<"1">>, y |-> <<"1">>, lo |-> "0", hi |-> "1"] /\ l = 1
Next == /\ l <= Len(Trace)
        /\ c' = NextCurve(Trace[l])
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
