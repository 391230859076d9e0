------------------------------- MODULE Plots -------------------------------
(* Axes that outputs and profiles are plotted into.                          *)
(* Axes are [lines, down]: the lines in the order they were drawn, each      *)
(* [x, y, label] with label <<>> for lines that are not identified, and      *)
(* whether the vertical axis points down.  An output is [prof, cols], where  *)
(* prof tells profile outputs (references are depths, downwards) and a       *)
(* column is a result [refs, vals, name].  A median is [ref, vals].          *)
EXTENDS Integers, Sequences

NoAxes == [lines |-> <<>>, down |-> FALSE]
Draw(prof, refs, vals, label) == IF prof THEN [x |-> vals, y |-> refs, label |-> label]
                                 ELSE [x |-> refs, y |-> vals, label |-> label]

\* styles: each result by its name, or all of them with their median
Refused(out, style) == style = "stats" /\ Len(out.cols) = 2
LabelOf(out, style, i) == IF style = "indiv" THEN <<out.cols[i].name>> ELSE IF i = 1 THEN <<"Realization">> ELSE <<>>
Drawn(out, style, median) ==
    [i \in 1..Len(out.cols) |-> Draw(out.prof, out.cols[i].refs, out.cols[i].vals, LabelOf(out, style, i))]
    \o IF style = "stats" THEN <<Draw(out.prof, median.ref, median.vals, <<"Median">>)>> ELSE <<>>
PlotOutput(ax, out, style, median) ==
    IF Refused(out, style) THEN ax
    ELSE [lines |-> ax.lines \o Drawn(out, style, median), down |-> ax.down \/ out.prof]
\* a profile property: a value per layer from its top downwards
PlotProfile(ax, tops, vals, label) == [lines |-> Append(ax.lines, Draw(TRUE, tops, vals, label)), down |-> TRUE]

\* the index of the value in effect strictly between two depths: profile outputs record a value
\* at the base of where it applies, profile properties at the top
NextOf(depths, z, Lt(_, _)) == CHOOSE i \in 1..Len(depths) : Lt(z, depths[i]) /\ \A j \in 1..i - 1 : ~Lt(z, depths[j])
LastOf(depths, z, Lt(_, _)) == CHOOSE i \in 1..Len(depths) : Lt(depths[i], z) /\ \A j \in i + 1..Len(depths) : ~Lt(depths[j], z)
=============================================================================
