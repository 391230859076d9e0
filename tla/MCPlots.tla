------------------------------ MODULE MCPlots ------------------------------
(* Two axes, a profile output and another one that gather results, and a     *)
(* profile; everything is plotted into either axes in any order.  h holds    *)
(* what was asked for, in order.                                             *)
EXTENDS Plots, FiniteSets
CONSTANTS MaxOps, MaxResults
VARIABLES axes, outs, h
vars == <<axes, outs, h>>

Names == <<"r1", "r2", "r3", "r4">>
Col(k, i) == [refs |-> <<0, k>>, vals |-> <<10 * k + i, 20 * k + i>>, name |-> Names[i]]
Median(k, out) == [ref |-> <<0, k>>, vals |-> [j \in 1..2 |-> Len(out.cols) + j]]
Init == /\ axes = <<NoAxes, NoAxes>> /\ h = <<>>
        /\ outs = <<[prof |-> TRUE, cols |-> <<>>], [prof |-> FALSE, cols |-> <<>>]>>
Add(k) == /\ Len(outs[k].cols) < MaxResults
          /\ outs' = [outs EXCEPT ![k].cols = Append(@, Col(k, Len(@) + 1))]
          /\ UNCHANGED <<axes, h>>
Plot(a, k, style) == /\ outs[k].cols # <<>> /\ Len(h) < MaxOps
                     /\ axes' = [axes EXCEPT ![a] = PlotOutput(@, outs[k], style, Median(k, outs[k]))]
                     /\ h' = Append(h, [a |-> a, k |-> k, style |-> style, n |-> Len(outs[k].cols)])
                     /\ UNCHANGED outs
Prof(a) == /\ Len(h) < MaxOps /\ axes' = [axes EXCEPT ![a] = PlotProfile(@, <<0, 1>>, <<5, 6>>, <<>>)]
           /\ h' = Append(h, [a |-> a, k |-> 0, style |-> "profile", n |-> 1]) /\ UNCHANGED outs
Next == \/ \E k \in 1..2 : Add(k)
        \/ \E a \in 1..2 : Prof(a) \/ \E k \in 1..2, s \in {"indiv", "stats"} : Plot(a, k, s)
Spec == Init /\ [][Next]_vars

Asked(a) == SelectSeq(h, LAMBDA e : e.a = a)
Count(e) == CASE e.style = "stats" -> IF e.n = 2 THEN 0 ELSE e.n + 1 [] OTHER -> e.n
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Count(Head(s)) + Total(Tail(s))
\* one line for every result asked for, and one median where statistics were
EveryLine == \A a \in 1..2 : Len(axes[a].lines) = Total(Asked(a))
\* depth points down as soon as anything against depth is in the axes, and however often
DepthDown == \A a \in 1..2 : axes[a].down = (\E i \in 1..Len(h) : h[i].a = a /\ h[i].k \in {0, 1} /\ Count(h[i]) > 0)
\* a result's own values stand in its line
OwnValues == \A a \in 1..2 : \A i \in 1..Len(axes[a].lines) : LET ln == axes[a].lines[i] IN
    /\ Len(ln.x) = Len(ln.y)
    /\ \A m \in 1..MaxResults : ln.label = <<Names[m]>> =>
           \E k \in 1..2 : Len(outs[k].cols) >= m /\ ln = Draw(outs[k].prof, Col(k, m).refs, Col(k, m).vals, ln.label)
\* drawing adds to the axes
Kept == [][\A a \in 1..2 : SubSeq(axes'[a].lines, 1, Len(axes[a].lines)) = axes[a].lines]_vars
=============================================================================
