------------------------------ MODULE GenKeys ------------------------------
(* Every sequence of changes of a dictionary keyed by layers and of the       *)
(* layers themselves, as histories to be replayed in the implementation (the  *)
(* thickness, part of what a layer is, stands for its velocity there).        *)
EXTENDS MCKeys, Histories
CONSTANTS Begins
VARIABLE h
gvars == <<objs, tab, map, n, h>>
GInit == /\ Init /\ [i \in 1..N |-> objs[i].soil] \in Begins
         /\ h = <<[op |-> "objs", soils |-> [i \in 1..N |-> objs[i].soil]]>>
Op(o) == h' = Append(h, o)
GNext == /\ Step
         /\ \E i \in 1..N : \/ DropOp(i) /\ Op([op |-> "drop", i |-> i])
                            \/ PutOp(i, n + 1) /\ Op([op |-> "put", i |-> i, v |-> n + 1])
                            \/ Thick(i, 3 - objs[i].th) /\ Op([op |-> "thick", i |-> i, th |-> 3 - objs[i].th])
                            \/ Strain(i, 1 - objs[i].eps) /\ Op([op |-> "strain", i |-> i, eps |-> 1 - objs[i].eps])
GSpec == GInit /\ [][GNext]_gvars
B1 == {<<"a", "a", "b">>, <<"b", "b", "a">>}
BAll == [1..3 -> Soils]
Emit == n < MaxOps \/ Print1(h)
=============================================================================
