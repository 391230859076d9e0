------------------------------- MODULE MCKeys -------------------------------
(* A hash table over layers that change while they are keys: buckets chosen  *)
(* by the hash at the time of the operation, entries compared by equality.   *)
(* It is a dictionary as long as equal layers hash alike and no change of a  *)
(* key's state moves its hash.  A key's thickness may only be changed while  *)
(* it is not in the table; its strain at any time.                           *)
EXTENDS Keys, TLC, FiniteSets
CONSTANTS N, MaxOps
VARIABLES objs, tab, map, n
vars == <<objs, tab, map, n>>
Soils == {"a", "b"}
Init == /\ objs \in [1..N -> {[soil |-> s, th |-> 1, eps |-> 0] : s \in Soils}]
        /\ tab = [s \in Soils |-> <<>>] /\ map = <<>> /\ n = 0
Hash(o) == o.soil
Same(i, k) == objs[i].soil = objs[k].soil /\ objs[i].th = objs[k].th
Keyed == {map[j].key : j \in 1..Len(map)}
Step == n < MaxOps /\ n' = n + 1
PutOp(i, v) == /\ tab' = [tab EXCEPT ![Hash(objs[i])] = Put(@, i, v, LAMBDA k : Same(i, k))]
               /\ map' = Put(map, i, v, LAMBDA k : Same(i, k)) /\ UNCHANGED objs
DropOp(i) == /\ tab' = [tab EXCEPT ![Hash(objs[i])] = Drop(@, LAMBDA k : Same(i, k))]
             /\ map' = Drop(map, LAMBDA k : Same(i, k)) /\ UNCHANGED objs
Thick(i, t) == i \notin Keyed /\ objs' = [objs EXCEPT ![i].th = t] /\ UNCHANGED <<tab, map>>
Strain(i, e) == objs' = [objs EXCEPT ![i].eps = e] /\ UNCHANGED <<tab, map>>
Next == Step /\ \E i \in 1..N : DropOp(i) \/ (\E v \in 1..2 : PutOp(i, v) \/ Thick(i, v)) \/ \E e \in 0..1 : Strain(i, e)
Spec == Init /\ [][Next]_vars
\* the table answers every question as the dictionary does
Refines == \A i \in 1..N : Get(tab[Hash(objs[i])], LAMBDA k : Same(i, k)) = Get(map, LAMBDA k : Same(i, k))
OneEach == \A j, k \in 1..Len(map) : j # k => ~Same(map[j].key, map[k].key)
LastPut == [][\A i \in 1..N : \A v \in 1..2 : PutOp(i, v) =>
                Get(map', LAMBDA k : Same(i, k)) = <<v>> /\ Len(map') <= Len(map) + 1]_vars
StrainKeeps == [][(\E i \in 1..N, e \in 0..1 : Strain(i, e)) => \A i \in 1..N : Get(map', LAMBDA k : Same(i, k)) = Get(map, LAMBDA k : Same(i, k))]_vars
=============================================================================
