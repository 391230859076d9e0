------------------------------ MODULE Outputs ------------------------------
(* Outputs: one name, one value column and (unless references are fixed) one *)
(* reference column per result.  Columns of a table have equal length: the    *)
(* shorter ones end in missing values.  An output is                          *)
(* [names, refs, vals, fixed]; refs and vals are sequences of columns.        *)
EXTENDS Naturals, Sequences, TLC

Max2(a, b) == IF a > b THEN a ELSE b
PadTo(c, n, na) == c \o [i \in 1..(n - Len(c)) |-> na]
\* append one column: pad the new one or all the old ones
AppendColumn(table, col, na) ==
    LET n == Max2(IF Len(table) = 0 THEN 0 ELSE Len(table[1]), Len(col))
    IN [i \in 1..Len(table) + 1 |-> PadTo(IF i <= Len(table) THEN table[i] ELSE col, n, na)]

DefaultName(k) == "r" \o ToString(k)
\* no name was given; an empty one is a name like any other
NoName == "None"
AddResult(o, name, refs, vals, na) ==
    [o EXCEPT !.names = Append(@, IF name = NoName THEN DefaultName(Len(o.vals) + 1) ELSE name),
              !.vals = AppendColumn(@, vals, na),
              !.refs = IF o.fixed THEN @ ELSE AppendColumn(@, refs, na)]
ResetOutput(o) == [o EXCEPT !.names = <<>>, !.vals = <<>>, !.refs = IF o.fixed THEN @ ELSE <<>>]
\* what iterating yields
Results(o) == [i \in 1..Len(o.names) |->
                 [name |-> o.names[i], refs |-> IF o.fixed THEN o.refs[1] ELSE o.refs[i], vals |-> o.vals[i]]]
=============================================================================
