----------------------------- MODULE GenOutputs -----------------------------
(* Every sequence of results given to two outputs and their collection, and  *)
(* of resets, as histories to be replayed in the implementation.  Lengths    *)
(* stand for calculations with results of different lengths.                 *)
EXTENDS MCOutputs, Histories
VARIABLE h2
gvars == <<outs, h, n, h2>>
GInit == Init /\ h2 = <<[op |-> "make"]>>
Op(o) == h2' = Append(h2, o)
GNext == /\ n < MaxAdds /\ n' = n + 1
         /\ \/ \E k \in 1..2, nm \in {NoName, ""}, len \in Lengths :
                 (nm = "" => k = 1) /\ Add(k, nm, len) /\ Op([op |-> "add", k |-> k, name |-> nm, calc |-> len])
            \/ \E len \in Lengths : AddAll(NoName, len) /\ Op([op |-> "addall", name |-> NoName, calc |-> len])
            \/ \E k \in 1..2 : Reset(k) /\ Op([op |-> "reset", k |-> k])
            \/ ResetAll /\ Op([op |-> "resetall"])
GSpec == GInit /\ [][GNext]_gvars
Emit == n < MaxAdds \/ Print1(h2)
=============================================================================
