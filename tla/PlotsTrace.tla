----------------------------- MODULE PlotsTrace -----------------------------
(* Outputs and profiles of the implementation plotted into axes.  State: the *)
(* results every output holds (decided by C12 and C13) and the axes.  Lines   *)
(* against depth are judged by the values they show between the recorded      *)
(* depths, others point by point.                                            *)
EXTENDS Plots, TraceBase
VARIABLES outs, axes, l
vars == <<outs, axes, l>>

OutOf(e) == [prof |-> e.prof, cols |-> [i \in 1..Len(e.names) |->
    [refs |-> IF Len(e.refs) = 1 THEN e.refs[1] ELSE e.refs[i], vals |-> e.vals[i], name |-> e.names[i]]]]
Axes(e) == IF e.ax > Len(axes) THEN NoAxes ELSE axes[e.ax]
\* the median is given by its points only: lines carry how they are to be judged
Tagged(old, ax, Kind(_)) == [ax EXCEPT !.lines = [i \in 1..Len(@) |-> IF i <= Len(old.lines) THEN @[i] ELSE [how |-> Kind(i - Len(old.lines))] @@ @[i]]]
After(e) ==
    LET ax == Axes(e) IN
    IF e.ev = "prof" THEN Tagged(ax, PlotProfile(ax, e.tops, e.vals, e.label), LAMBDA i : "top")
    ELSE LET o == outs[e.k] IN
         Tagged(ax, PlotOutput(ax, o, e.style, e.median),
                LAMBDA i : IF i > Len(o.cols) THEN "median" ELSE IF o.prof THEN "base" ELSE "points")

Fin(x) == RFinite(x)
SameVal(a, b) == IF RNaN(b) THEN a = "nan" ELSE Near(a, b)
SamePts(got, want, pts) == Len(got) = Len(pts) /\ \A j \in 1..Len(pts) : SameVal(got[j], want[pts[j]])
\* only finite results are drawn
Valid(ln) == SelectSeq([i \in 1..Len(ln.y) |-> i], LAMBDA i : RFinite(ln.x[i]) /\ RFinite(ln.y[i]))
ShownAt(ln, z) ==
    LET v == Valid(ln) ds == [i \in 1..Len(v) |-> ln.y[v[i]]] IN
    ln.x[v[IF ln.how = "base" THEN NextOf(ds, z, LAMBDA a, b : RLt(a, b)) ELSE LastOf(ds, z, LAMBDA a, b : RLt(a, b))]]
SameLine(g, ln, pts) ==
    /\ CASE ln.how = "points" -> SamePts(g.x, ln.x, pts) /\ SamePts(g.y, ln.y, pts)
         [] ln.how = "median" -> Len(g.x) = Len(ln.x) /\ \A j \in 1..Len(ln.x) : SameVal(g.x[j], ln.x[j]) /\ SameVal(g.y[j], ln.y[j])
         [] OTHER ->
              /\ \A j \in 1..Len(g.zs) : Near(g.drawn[j], ShownAt(ln, g.zs[j]))
              /\ LET v == Valid(ln) IN v # <<>> => Near(g.lo, ln.y[v[1]]) /\ Near(g.hi, ln.y[v[Len(v)]])
Judge(e, ax) ==
    LET o == e.obs IN
    Chk("LineCount", Len(o.lines) = Len(ax.lines))
    \cup Chk2(Len(o.lines) = Len(ax.lines), "Lines", \A i \in 1..Len(o.lines) : SameLine(o.lines[i], ax.lines[i], e.pts[i]))
    \cup Chk2(Len(o.lines) = Len(ax.lines), "Labels", \A i \in 1..Len(o.lines) : o.lines[i].label = ax.lines[i].label)
    \cup Chk("DepthDown", o.down = ax.down)
Failing(e) ==
    CASE e.ev = "make" -> {}
      [] e.ev = "add" -> Chk("CallRaised", e.raised = "")
      [] e.ev = "plot" ->
           LET out == outs[e.k] ax == axes'[e.ax] IN
           Chk("OutputsUnchanged", e.kept)
           \cup IF Refused(out, e.style) THEN Chk("TwoResultsRefused", e.raised # "")
              ELSE IF e.raised # "" THEN {"CallRaised"}
              ELSE Judge(e, ax)
                   \cup Chk("GivenAxes", e.same)
                   \cup Chk("Scales", e.obs.xscale = e.xscale /\ e.obs.yscale = e.yscale /\ e.obs.xlabel = e.xlabel /\ e.obs.ylabel = e.ylabel)
                   \cup Chk2(Len(out.cols) > 1, "Legend",
                          LET ls == SelectSeq(ax.lines, LAMBDA ln : ln.label # <<>>) IN
                          e.obs.legend = [i \in 1..Len(ls) |-> ls[i].label[1]])
      [] e.ev = "prof" ->
           Chk("ProfileUnchanged", e.kept)
           \cup IF e.raised # "" THEN {"CallRaised"}
              ELSE LET ax == axes'[e.ax] IN
                   Judge(e, ax)
                   \cup Chk("GivenAxes", e.same)
                   \cup Chk("DepthRange", REq(e.obs.ylim[2], 0) /\ RLe(e.tops[Len(e.tops)], e.obs.ylim[1]))
                   \cup Chk("GivenLimits", (e.new => RLe(e.xlim[1], 0)) /\ (e.new /\ e.limits => REq(e.xlim[1], 0) /\ REq(e.xlim[2], 7)))
Init == outs = <<>> /\ axes = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ outs' = IF e.ev = "make" THEN <<[prof |-> FALSE, cols |-> <<>>], [prof |-> FALSE, cols |-> <<>>]>>
                      ELSE IF e.ev = "add" /\ e.raised = "" THEN [outs EXCEPT ![e.k] = OutOf(e)] ELSE outs
           /\ axes' = IF e.ev = "make" THEN <<>> ELSE IF e.ev = "add" \/ e.raised # "" THEN axes
                      ELSE IF e.ax > Len(axes) THEN Append(axes, After(e)) ELSE [axes EXCEPT ![e.ax] = After(e)]
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
