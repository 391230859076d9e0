---------------------------- MODULE MCLogicTree ----------------------------
(* All trees of three small nodes: the odometer, step by step, against the   *)
(* declarative meaning of a tree.                                            *)
EXTENDS LogicTree, TLC
CONSTANTS MaxAlts
VARIABLES tree, pos, seen, out, done
vars == <<tree, pos, seen, out, done>>

T(x) == [t |-> "s", v |-> x]
L(S) == [t |-> "l", v |-> S]
Alt(v, w, rq, ex) == [value |-> T(v), weight |-> R(w), requires |-> rq, excludes |-> ex]
Conds == {<<>>, <<<<"a", T("x")>>>>, <<<<"b", L(<<T("x"), T("z")>>)>>>>, <<<<"a", T("y")>>, <<"b", T("x")>>>>}
Simple == {Alt(v, w, <<>>, <<>>) : v \in {"x", "y"}, w \in {0, 2}}
Rich == {Alt(v, 3, rq, ex) : v \in {"x", "y"}, rq \in Conds, ex \in Conds}
\* at most one of the two kinds of condition
Half == {x \in Rich : x.requires = <<>> \/ x.excludes = <<>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Trees == {<<[name |-> "a", alts |-> aa], [name |-> "b", alts |-> bb], [name |-> "c", alts |-> cc]>> :
             aa \in Seqs(Simple, 2), bb \in {<<Alt("x", 1, <<>>, <<>>), b>> : b \in Rich}, cc \in Seqs(Half, MaxAlts) \cup Seqs(Rich, 1)}

Init == /\ tree \in Trees /\ pos = First(Choices(tree)) /\ seen = {} /\ out = <<>> /\ done = FALSE
Next == /\ ~done /\ tree' = tree
        /\ IF Over(pos) THEN done' = TRUE /\ UNCHANGED <<pos, seen, out>>
           ELSE LET ch == Choices(tree) a == Chosen(ch, pos) IN
                /\ pos' = Step(ch, pos) /\ done' = FALSE
                /\ IF Emits(tree, ch, pos, seen) THEN seen' = seen \cup {ValuesOf(a)} /\ out' = Append(out, pos)
                   ELSE UNCHANGED <<seen, out>>
Spec == Init /\ [][Next]_vars

All == {p \in [1..3 -> 1..3] : \A k \in 1..3 : p[k] <= Len(tree[k].alts)}
Pick(p) == [k \in 1..3 |-> tree[k].alts[p[k]]]
\* what the tree means, over all alternatives
Meant == {ValuesOf(Pick(p)) : p \in {q \in All : Valid(tree, Pick(q)) /\ \A k \in 1..3 : RLt(0, Pick(q)[k].weight)}}
Less(p, q) == \E k \in 1..3 : p[k] < q[k] /\ \A j \in 1..k - 1 : p[j] = q[j]
Complete == done => {ValuesOf(Chosen(Choices(tree), out[i])) : i \in 1..Len(out)} = Meant
Once == Len(out) = Cardinality(seen)
Ordered == \A i \in 1..Len(out) - 1 : Less(out[i], out[i + 1])
SameAsFunction == done => LET b == Branches(tree) IN Len(b) = Len(out) /\ \A i \in 1..Len(out) : b[i] = Chosen(Choices(tree), out[i])
=============================================================================
