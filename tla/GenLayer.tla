------------------------------ MODULE GenLayer ------------------------------
(* Every sequence of strains, edits and resets of a layer of each kind of    *)
(* soil, as histories to be replayed in the implementation.                  *)
EXTENDS MCLayerDyn, Histories
CONSTANTS Depth
VARIABLE h
gvars == <<la, n, h>>
Do(x, o) == la' = x /\ h' = Append(h, o) /\ n' = n + 1
GInit == /\ n = 0
         /\ \E s \in Soils : /\ la = Make(s, "200", "0.03")
                             /\ h = <<[op |-> "new", mr |-> Len(s.mr), dd |-> Len(s.dd)]>>
GNext == /\ Len(h) <= Depth
         /\ \/ \E es \in StrainSets : Do(SetStrain(la, es), [op |-> "strain", xs |-> es])
            \/ \E v \in Vels : Do(SetVel(la, v), [op |-> "vel", x |-> v])
            \/ \E d \in Dmins : Do(SetDmin(la, d), [op |-> "dmin", x |-> d])
            \/ Do(SetMaxStrain(la, "0.002"), [op |-> "smax", x |-> "0.002"])
            \/ Do(Reset(la), [op |-> "reset"])
            \/ Do(la, [op |-> "adj"])
GSpec == GInit /\ [][GNext]_gvars
V1 == {"400"}
D2 == {"0", "0.01"}
Emit == Len(h) <= Depth \/ Print1(h)
=============================================================================
