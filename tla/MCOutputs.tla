----------------------------- MODULE MCOutputs -----------------------------
(* Two outputs (one with fixed references) and their collection, given       *)
(* results of differing lengths; h remembers every result as it was given.    *)
EXTENDS Outputs, FiniteSets
CONSTANTS MaxAdds, Lengths
VARIABLES outs, h, n
vars == <<outs, h, n>>
NA == 0
Col(k, len) == [i \in 1..len |-> 10 * k + i]     \* values are different in every result

Init == /\ outs = <<[names |-> <<>>, refs |-> <<>>, vals |-> <<>>, fixed |-> FALSE],
                    [names |-> <<>>, refs |-> <<<<7, 8>>>>, vals |-> <<>>, fixed |-> TRUE]>>
        /\ h = <<<<>>, <<>>>> /\ n = 0
One(o, k, name, len) == AddResult(o, name, Col(k + 50, len), Col(k, len), NA)
Given(hh, k, name, len) == Append(hh, [name |-> name, len |-> len, k |-> k])
Add(k, name, len) == /\ outs' = [outs EXCEPT ![k] = One(@, n + 1, name, len)]
                     /\ h' = [h EXCEPT ![k] = Given(@, n + 1, name, len)]
AddAll(name, len) == /\ outs' = [k \in 1..2 |-> One(outs[k], n + 1, name, len)]
                     /\ h' = [k \in 1..2 |-> Given(h[k], n + 1, name, len)]
Reset(k) == outs' = [outs EXCEPT ![k] = ResetOutput(@)] /\ h' = [h EXCEPT ![k] = <<>>]
ResetAll == outs' = [k \in 1..2 |-> ResetOutput(outs[k])] /\ h' = <<<<>>, <<>>>>
Next == /\ n < MaxAdds /\ n' = n + 1
        /\ \/ \E k \in 1..2, nm \in {NoName, ""}, len \in Lengths : Add(k, nm, len)
           \/ \E nm \in {NoName, ""}, len \in Lengths : AddAll(nm, len)
           \/ \E k \in 1..2 : Reset(k)
           \/ ResetAll
Spec == Init /\ [][Next]_vars

SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Longest(hh) == SetMax({hh[i].len : i \in 1..Len(hh)})
Aligned == \A k \in 1..2 : LET o == outs[k] hh == h[k] IN
    /\ Len(o.names) = Len(hh) /\ Len(o.vals) = Len(hh) /\ (o.fixed \/ Len(o.refs) = Len(hh))
    /\ \A i \in 1..Len(hh) :
         /\ o.names[i] = IF hh[i].name = NoName THEN DefaultName(i) ELSE hh[i].name
         /\ o.vals[i] = PadTo(Col(hh[i].k, hh[i].len), Longest(hh), NA)
         /\ ~o.fixed => o.refs[i] = PadTo(Col(hh[i].k + 50, hh[i].len), Longest(hh), NA)
FixedRefsStay == outs[2].refs = <<<<7, 8>>>>
=============================================================================
