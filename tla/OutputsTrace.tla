---------------------------- MODULE OutputsTrace ----------------------------
(* Outputs of the implementation receiving results and resets.  A result's   *)
(* columns are those a new output of the same kind records from the same      *)
(* calculation.                                                              *)
EXTENDS Outputs, Num, TraceBase
VARIABLES outs, l
vars == <<outs, l>>
NA == "nan"
SameNum(a, b) == a = b \/ Near(a, b)
SameCol(c, d) == Len(c) = Len(d) /\ AllN(Len(c), LAMBDA i : SameNum(c[i], d[i]))
SameTable(s, t) == Len(s) = Len(t) /\ AllN(Len(s), LAMBDA i : SameCol(s[i], t[i]))

RECURSIVE AddCols(_, _, _, _)
AddCols(os, cols, name, i) ==
    IF i > Len(cols) THEN os
    ELSE AddCols([os EXCEPT ![cols[i].k] = AddResult(@, name, cols[i].refs, cols[i].vals, NA)], cols, name, i + 1)

After(e) == CASE e.ev = "make" -> [k \in 1..Len(e.kinds) |-> [names |-> <<>>, refs |-> e.refs[k], vals |-> <<>>, fixed |-> e.fixed[k]]]
              [] e.ev \in {"add", "addall"} /\ e.raised = "" -> AddCols(outs, e.cols, e.name, 1)
              [] e.ev = "reset" -> [outs EXCEPT ![e.k] = ResetOutput(@)]
              [] e.ev = "resetall" -> [k \in 1..Len(outs) |-> ResetOutput(outs[k])]
              [] OTHER -> outs

SameOutput(o, x) ==
    Chk("Names", x.names = o.names)
    \cup Chk("Values", SameTable(x.vals, o.vals))
    \cup Chk("References", SameTable(x.refs, o.refs))
    \cup LET rs == Results(o) IN
         Chk("Iteration", Len(x.it) = Len(rs) /\ AllN(Len(rs), LAMBDA i :
              x.it[i].name = rs[i].name /\ SameCol(x.it[i].refs, rs[i].refs) /\ SameCol(x.it[i].vals, rs[i].vals)))
Failing(e) ==
    CASE e.ev = "refused" -> Chk("RefusesOtherMotions", e.raised # "") \cup UNION {SameOutput(outs[k], e.obs[k]) : k \in 1..Len(outs)}
      [] e.ev = "fresh" -> {"CallRaised"}
      [] e.raised # "" -> {"CallRaised"}
      [] e.obs = <<>> -> {}        \* not looked at: the same beginning is in another history
      [] OTHER -> UNION {SameOutput(outs'[k], e.obs[k]) : k \in 1..Len(outs')}
                  \cup Chk2(e.ev = "make", "CollectionHoldsOutputs", e.size = Len(e.kinds) /\ e.same)

Init == outs = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ outs' = After(Trace[l])
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
