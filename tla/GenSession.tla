----------------------------- MODULE GenSession -----------------------------
(* Every sequence of calculations with and edits of shared objects, as       *)
(* histories to be replayed in the implementation.                           *)
EXTENDS Session, Histories
VARIABLE h
gvars == <<given, iter, smoother, motion, last, n, h>>
GInit == Init /\ h = <<>>
Op(o) == h' = Append(h, o)
GNext == /\ n < Depth /\ n' = n + 1
         /\ \/ \E c \in Calcs, m \in Motions, p \in Profiles : Run(c, m, p, TRUE) /\ Op([op |-> "run", c |-> c, m |-> m, p |-> p])
            \/ \E m \in Motions, p \in Profiles : Run(1, m, p, FALSE) /\ Op([op |-> "keep", m |-> m, p |-> p])
            \/ \E p \in Profiles : Edit(p) /\ Op([op |-> "edit", p |-> p])
GSpec == GInit /\ [][GNext]_gvars
Emit == n < Depth \/ Print1(h)
=============================================================================
