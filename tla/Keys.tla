-------------------------------- MODULE Keys --------------------------------
(* Soil types and layers as keys: what makes two of them equal, and a         *)
(* dictionary keyed by them.  A soil type is [id, kind, name, uw, mr, dd]     *)
(* with each curve [id, x, y] (id 0: a number); a layer [id, soil, th, vel]. *)
(* Equality has three answers: curves of the same content that were built     *)
(* separately may count as equal or not.                                     *)
EXTENDS Num, Integers, Sequences
And3(a, b) == IF "ne" \in {a, b} THEN "ne" ELSE IF "any" \in {a, b} THEN "any" ELSE "eq"
Of(b) == IF b THEN "eq" ELSE "ne"
SameNums(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : REq(s[i], t[i])
CurveEq(c, d) ==
    IF c.id = 0 /\ d.id = 0 THEN Of(SameNums(c.x, d.x) /\ SameNums(c.y, d.y))
    ELSE IF c.id = d.id THEN "eq"
    ELSE IF c.id # 0 /\ d.id # 0 /\ SameNums(c.x, d.x) /\ SameNums(c.y, d.y) THEN "any" ELSE "ne"
SoilEq(a, b) ==
    IF a.id = b.id THEN "eq"
    ELSE IF a.kind # b.kind \/ a.name # b.name \/ ~REq(a.uw, b.uw) THEN "ne"
    ELSE And3(CurveEq(a.mr, b.mr), CurveEq(a.dd, b.dd))
LayerEq(a, b) ==
    IF a.id = b.id THEN "eq"
    ELSE And3(Of(REq(a.th, b.th) /\ REq(a.vel, b.vel)), SoilEq(a.soil, b.soil))
Eq3(a, b) == IF a.what # b.what THEN "ne" ELSE IF a.what = "soil" THEN SoilEq(a, b) ELSE LayerEq(a, b)

\* a dictionary: entries [key, val], the first key of equal ones being kept
Where(d, Same(_)) == {i \in 1..Len(d) : Same(d[i].key)}
Put(d, o, v, Same(_)) == LET s == Where(d, Same) IN
    IF s = {} THEN Append(d, [key |-> o, val |-> v]) ELSE [i \in 1..Len(d) |-> IF i \in s THEN [d[i] EXCEPT !.val = v] ELSE d[i]]
Get(d, Same(_)) == LET s == Where(d, Same) IN IF s = {} THEN <<>> ELSE <<d[CHOOSE i \in s : TRUE].val>>
Drop(d, Same(_)) == SelectSeq(d, LAMBDA x : ~Same(x.key))
\* position of a layer: itself, otherwise the first equal one
Position(ls, o) == LET me == {i \in 1..Len(ls) : ls[i].id = o.id}  eq == {i \in 1..Len(ls) : LayerEq(ls[i], o) = "eq"} IN
    IF me # {} THEN <<CHOOSE i \in me : \A j \in me : i <= j>> ELSE IF eq # {} THEN <<CHOOSE i \in eq : \A j \in eq : i <= j>> ELSE <<>>
RECURSIVE Distinct(_, _)
Distinct(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Distinct(Tail(s), seen) ELSE <<Head(s)>> \o Distinct(Tail(s), seen \cup {Head(s)})
=============================================================================
