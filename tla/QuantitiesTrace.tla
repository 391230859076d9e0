-------------------------- MODULE QuantitiesTrace --------------------------
(* Calculations of the implementation followed by outputs of every kind.     *)
(* State: the layers, motion and waves of the latest calculation.            *)
EXTENDS Quantities, TraceBase
VARIABLES cx, l
vars == <<cx, l>>

Context(e) ==
    IF e.rvt # <<>> THEN LET w == SeqMap(e.rvt.f, Omega) IN
        [ls |-> e.ls, wt |-> e.wt, col |-> Column(e.ls, w), lin |-> Place(e.ls, e.lin),
         m |-> [kind |-> "rvt", w |-> w, f |-> e.rvt.f, S |-> e.rvt.S, dur |-> e.rvt.dur]]
    ELSE LET n == e.n tw == Twiddle(n) w == AngFreqs(n, e.dt) IN
    [ls |-> e.ls, wt |-> e.wt, col |-> Column(e.ls, w), lin |-> Place(e.ls, e.lin),
     m |-> [kind |-> "ts", w |-> w, f |-> Freqs(n, e.dt), X |-> Dft(e.a, n, tw), n |-> n, dt |-> e.dt, tw |-> tw]]

Top1(s) == FoldN(Len(s), R(0), LAMBDA acc, k : IF RFinite(s[k]) THEN RMax(acc, RAbs(s[k])) ELSE acc)
Both(got, want, tol) == LET top == Top1(want) IN
    Len(got) = Len(want) /\ AllN(Len(got), LAMBDA k : IF RNaN(want[k]) THEN got[k] = "nan" ELSE RClose(got[k], want[k], tol, RMul(tol, top)))
\* no comparison where an input field (nearly) vanishes: an undamped layer at its resonance
Posed(loc) == AllN(Len(cx.m.w), LAMBDA j : Conditioned(cx.col, loc, j))
Sound(e) == Posed(cx.lin) /\ ("loc_in" \in DOMAIN e => Posed(Place(cx.ls, e.loc_in)))
Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "calc" -> {}
           [] e.ev = "out" -> Chk("Values_" \o e.kind, ~Sound(e) \/ Both(e.vals, Values(cx, e), "1e-6"))
                              \cup Chk("References_" \o e.kind, Both(e.refs, Refs(cx, e), "1e-9"))
                              \cup Chk("Periods_" \o e.kind, Both(e.periods, Periods(e), "1e-9"))
           [] e.ev = "evolv" ->
                LET want == Amplif(cx, e) IN
                Chk("Amplification", ~Sound(e) \/ (Len(e.rows) = Len(want) /\ AllN(Len(want), LAMBDA k : Both(e.rows[k], want[k], "1e-6"))))
                \cup Chk("DrawnAt", e.grid /\ Both(e.at[1], e.freqs, "1e-9") /\ Both(e.at[2], e.depths, "1e-9"))
                \cup Chk("DepthRange", REq(e.ylim[2], 0) /\ RClose(e.ylim[1], e.depths[Len(e.depths)], "1e-9", 0))
                \cup Chk("GivenAxes", e.same /\ e.kept)
           [] e.ev = "shape" -> Chk("OneValuePerLayer", Len(e.vals) = 1 /\ Len(e.vals[1]) = e.n)

Init == cx = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ cx' = IF e.ev = "calc" /\ e.raised = "" THEN Context(e) ELSE cx
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
