----------------------------- MODULE StatsTrace -----------------------------
(* Statistics and tables of the implementation's outputs after each result.  *)
(* State: names, references and values the output holds.                     *)
EXTENDS Stats, TraceBase
VARIABLES o, l
vars == <<o, l>>

Same(a, b) == IF RNaN(a) THEN RNaN(b) ELSE RClose(a, b, "1e-8", "1e-11")
SameS(s, t) == Len(s) = Len(t) /\ AllN(Len(s), LAMBDA i : Same(s[i], t[i]))
\* values in row i of the summary (where a depth is within rounding of a step, either side)
At1(refs, vals, z) == {StepAt(refs, vals, z)} \cup
    IF \E k \in 1..Len(refs) : ~RNaN(refs[k]) /\ ~REq(refs[k], z) /\ RClose(refs[k], z, "1e-12", 0)
    THEN {StepAt(refs, vals, RMul(z, "1.000000001")), StepAt(refs, vals, RMul(z, "0.999999999"))} ELSE {}
RefCol(k) == IF Len(o.refs) = 1 THEN o.refs[1] ELSE o.refs[k]
RowAt(e, i) == IF o.kind = "profile" THEN SeqGen(Len(o.vals), LAMBDA k : StepAt(RefCol(k), o.vals[k], e.ref[i])) ELSE Row(o.vals, i)
Vague(e, i) == o.kind = "profile" /\ \E k \in 1..Len(o.vals) : Cardinality(At1(RefCol(k), o.vals[k], e.ref[i])) > 1
Rows(e) == Len(e.ref)

MaxRef == FoldN(Len(o.refs), R(0), LAMBDA acc, k : FoldN(Len(o.refs[k]), acc, LAMBDA a, j : IF RNaN(o.refs[k][j]) THEN a ELSE RMax(a, o.refs[k][j])))
WantRef(e) == IF Len(e.given) > 0 THEN e.given
              ELSE IF o.kind # "profile" THEN o.refs[1]
              ELSE LET n == IF e.ev = "stats" THEN 512 ELSE 50
                       top == IF e.ev = "stats" THEN RMul(MaxRef, "1.05") ELSE MaxRef
                   IN SeqGen(n, LAMBDA i : (R(top) \otimes (i - 1)) \oslash (n - 1))

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "held" -> {}
      [] e.ev = "stats" ->
           Chk("References", SameS(e.ref, WantRef(e)))
           \cup Chk("Median", Len(e.median) = Rows(e) /\ AllN(Rows(e), LAMBDA i : Vague(e, i) \/ Same(Median(RowAt(e, i)), e.median[i])))
           \cup Chk("LnStd", Len(e.std) = Rows(e) /\ AllN(Rows(e), LAMBDA i : Vague(e, i) \/ Same(LnStd(RowAt(e, i)), e.std[i])))
      [] e.ev = "table" ->
           Chk("References", SameS(e.ref, WantRef(e)))
           \cup Chk("Columns", e.columns = o.names)
           \cup Chk("Cells", Len(e.cells) = Rows(e) /\ AllN(Rows(e), LAMBDA i : Vague(e, i) \/ SameS(RowAt(e, i), e.cells[i])))

Init == o = [names |-> <<>>, refs |-> <<>>, vals |-> <<>>, kind |-> ""] /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ o' = IF e.ev = "held" THEN [names |-> e.names, refs |-> e.refs, vals |-> e.vals, kind |-> e.kind] ELSE o
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
