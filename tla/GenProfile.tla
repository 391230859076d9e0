----------------------------- MODULE GenProfile -----------------------------
(* Every sequence of edits of a small profile, as histories to be replayed   *)
(* in the implementation.  Layers come in kinds: layers of one kind are      *)
(* equal to each other.                                                     *)
EXTENDS Profile, Histories
CONSTANTS Kinds, Starts, Depth
VARIABLE h
Thick(k) == 2 + 3 * k
Weight(k) == 15 + k
Layer(k) == NewLayer(Thick(k), Weight(k))
Init == \E n \in Starts : \E ks \in [1..n -> Kinds] :
          /\ layers = DoNew(SeqMap(ks, LAMBDA k : Layer(k)))
          /\ wt = R(0)
          /\ h = <<[op |-> "new", ks |-> ks]>>
N == Len(layers)
Do(ls, w, o) == /\ layers' = ls /\ wt' = w /\ h' = Append(h, o)
Next == /\ Len(h) <= Depth
        /\ \/ \E k \in Kinds : Do(DoAppend(layers, Layer(k)), wt, [op |-> "append", k |-> k])
           \/ \E k \in Kinds, i \in {0 - (N + 1), 0 - 1, 0, 1, N + 1} :
                Do(DoInsert(layers, InsertPos(N, i), Layer(k)), wt, [op |-> "insert", at |-> i, k |-> k])
           \/ \E i \in 1..N, t \in {1, 4} : Do(DoSetThickness(layers, i, t), wt, [op |-> "thick", at |-> i, th |-> t])
           \/ Do(layers, R(3), [op |-> "wt", wt |-> 3])
           \/ Do(layers, wt, [op |-> "strain"])
Spec == Init /\ [][Next]_<<layers, wt, h>>
Emit == Len(h) <= Depth \/ Print1(h)
=============================================================================
