----------------------------- MODULE MCProfile -----------------------------
(* Exhaustive check of Profile over small constants: every sequence of edits. *)
EXTENDS Profile, FiniteSets
CONSTANTS Thicks, Weights, MaxLen
VARIABLE lookup          \* result of the last lookup, for Unique

Init == layers = <<>> /\ wt = R(0) /\ lookup = 0

New == \E n \in 1..2 : \E f \in [1..n -> Thicks \X Weights] :
         /\ layers = <<>>
         /\ layers' = DoNew([i \in 1..n |-> NewLayer(f[i][1], f[i][2])])
         /\ UNCHANGED wt
AppendLayer == \E t \in Thicks, u \in Weights :
         /\ Len(layers) < MaxLen
         /\ layers' = DoAppend(layers, NewLayer(t, u)) /\ UNCHANGED wt
InsertLayer == \E t \in Thicks, u \in Weights : \E i \in 1..Len(layers) + 1 :
         /\ Len(layers) < MaxLen
         /\ layers' = DoInsert(layers, i, NewLayer(t, u)) /\ UNCHANGED wt
SetThickness == \E t \in Thicks : \E i \in 1..Len(layers) :
         layers' = DoSetThickness(layers, i, t) /\ UNCHANGED wt
SetWt == \E t \in Thicks : wt' = R(t) /\ UNCHANGED layers

\* layer that contains depth d: the unique i with depth_i <= d < base_i, else the half-space
Containing(ls, d) == {i \in 1..Len(ls) - 1 : RLe(ls[i].depth, d) /\ RLt(d, Base(ls[i]))}

Next == UNCHANGED lookup /\ (New \/ AppendLayer \/ InsertLayer \/ SetThickness \/ SetWt)
Spec == Init /\ [][Next]_<<layers, wt, lookup>>

\* every depth above the half-space lies in exactly one layer
LookupUnique == \A d \in 0..6 : Len(layers) > 0 =>
    Cardinality(Containing(layers, d)) =
        (IF RLt(d, layers[Len(layers)].depth) THEN 1 ELSE 0)
\* effective stress never exceeds total stress
EffectiveLeTotal == \A i \in 1..Len(layers) :
    RLe(StressVertEff(layers[i], layers[i].th, "9.80665", wt), StressVert(layers[i], layers[i].th))
=============================================================================
