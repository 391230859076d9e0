----------------------------- MODULE LogicTree -----------------------------
(* A logic tree: nodes [name, alts]; an alternative is [value, weight,        *)
(* requires, excludes], the conditions being sequences of <<node name, ref>>.  *)
(* Enumeration is an odometer over the alternatives of positive weight, the   *)
(* last node turning fastest; invalid positions and repeated combinations of   *)
(* values are skipped.                                                       *)
EXTENDS Num, Integers, Sequences, FiniteSets

Usable(node) == SelectSeq(node.alts, LAMBDA a : RLt(0, a.weight))
Choices(tree) == [k \in 1..Len(tree) |-> Usable(tree[k])]
\* a position: one index per node
Chosen(ch, pos) == [k \in 1..Len(ch) |-> ch[k][pos[k]]]
NodeNamed(tree, name) == CHOOSE k \in 1..Len(tree) : tree[k].name = name

\* values are [t, v]: text, number, tuple; refs also floats (close is enough) and lists (one of)
SameValue(a, b) == a.t = b.t /\ a.v = b.v
MatchOne(ref, val) ==
    CASE ref.t = "f" -> val.t = "n" /\ RClose(ref.v, val.v, "1e-5", "1e-8")
      [] ref.t = "l" -> \E i \in 1..Len(ref.v) : SameValue(ref.v[i], val)
      [] OTHER -> SameValue(ref, val)
Holds(tree, alts, cond) == MatchOne(cond[2], alts[NodeNamed(tree, cond[1])].value)
ValidAlt(tree, alts, a) ==
    /\ \A i \in 1..Len(a.requires) : Holds(tree, alts, a.requires[i])
    /\ a.excludes # <<>> => \E i \in 1..Len(a.excludes) : ~Holds(tree, alts, a.excludes[i])
Valid(tree, alts) == \A k \in 1..Len(tree) : ValidAlt(tree, alts, alts[k])
ValuesOf(alts) == [k \in 1..Len(alts) |-> alts[k].value]
WeightOf(alts) == FoldN(Len(alts), R(1), LAMBDA acc, k : acc \otimes alts[k].weight)

\* the odometer
First(ch) == IF \E k \in 1..Len(ch) : ch[k] = <<>> THEN <<0>> ELSE [k \in 1..Len(ch) |-> 1]
RECURSIVE Turn(_, _, _)
Turn(ch, pos, k) == IF k = 0 THEN <<0>>
                    ELSE IF pos[k] < Len(ch[k]) THEN [pos EXCEPT ![k] = @ + 1]
                    ELSE Turn(ch, [pos EXCEPT ![k] = 1], k - 1)
Step(ch, pos) == Turn(ch, pos, Len(ch))
Over(pos) == pos = <<0>>
Emits(tree, ch, pos, seen) == LET a == Chosen(ch, pos) IN Valid(tree, a) /\ ValuesOf(a) \notin seen

RECURSIVE Enum(_, _, _, _, _)
Enum(tree, ch, pos, seen, out) ==
    IF Over(pos) THEN out
    ELSE LET a == Chosen(ch, pos) IN
         IF Emits(tree, ch, pos, seen) THEN Enum(tree, ch, Step(ch, pos), seen \cup {ValuesOf(a)}, Append(out, a))
         ELSE Enum(tree, ch, Step(ch, pos), seen, out)
Branches(tree) == Enum(tree, Choices(tree), First(Choices(tree)), {}, <<>>)
=============================================================================
