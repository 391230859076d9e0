--------------------------- MODULE LogicTreeTrace ---------------------------
(* Trees of the implementation, however made, and the branches iterating      *)
(* them yields, one at a time and possibly several iterations at once.         *)
(* State: the tree, the branches the specification enumerates, and how many   *)
(* of them each iteration has yielded.                                       *)
EXTENDS LogicTree, TraceBase
VARIABLES tree, bs, at, l
vars == <<tree, bs, at, l>>
MR == JsonDeserialize(IOEnv.DATA \o "/miller_rice.json")

SameSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : SameValue(s[i], t[i])
Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "tree" ->
           Chk("Nodes", e.names = [k \in 1..Len(e.tree) |-> e.tree[k].name])
           \cup Chk("Alternatives", \A k \in 1..Len(e.tree) : SameSeq(e.options[k], [i \in 1..Len(e.tree[k].alts) |-> e.tree[k].alts[i].value]))
           \cup Chk("AlternativeWeights", \A k \in 1..Len(e.tree) : \A i \in 1..Len(e.tree[k].alts) : Near(e.weights[k][i], e.tree[k].alts[i].weight))
      [] e.ev = "branch" ->
           IF at[e.it] >= Len(bs) THEN {"NoMoreBranches"}
           ELSE LET b == bs[at[e.it] + 1] IN
             Chk("NextBranch", SameSeq(e.values, ValuesOf(b)))
             \cup Chk("BranchDict", e.keys = [k \in 1..Len(tree) |-> tree[k].name] /\ SameSeq(e.dict, e.values))
             \cup Chk("BranchWeight", RClose(e.weight, WeightOf(b), "1e-12", 0))
             \cup Chk("BranchParams", e.params = [k \in 1..Len(b) |-> b[k].params])
      [] e.ev = "byvalue" ->        \* the first alternative with the value (a close one, for floats)
           LET as == tree[e.node].alts
               f == {i \in 1..Len(as) : MatchOne(e.ref, as[i].value)} IN
           Chk("AlternativeByValue", e.got = IF f = {} THEN 0 ELSE CHOOSE i \in f : \A j \in f : i <= j)
           \cup Chk("NoSuchNode", e.absent)
      [] e.ev = "choose" ->
           LET b == [k \in 1..Len(tree) |-> tree[k].alts[e.pick[k]]] IN
           Chk("BranchValidity", e.valid = Valid(tree, b))
           \cup Chk("AlternativeValidity", \A k \in 1..Len(tree) : e.each[k] = ValidAlt(tree, b, b[k]))
      [] e.ev = "xarray" ->
           Chk("WeightArray", e.dims = <<"case">> /\ e.name = "weight" /\ e.values = e.want
                              /\ NearS(e.weights, SeqMap(tree[e.node].alts, LAMBDA a : a.weight)))
      [] e.ev = "end" -> Chk("AllBranches", at[e.it] = Len(bs))
      [] e.ev = "miller" -> LET m == MR[e.n] IN
           Chk("MillerRice", Len(e.values) = Len(m) /\ \A i \in 1..Len(m) : Near(e.values[i], m[i][1]) /\ Near(e.weights[i], m[i][2]))

Init == tree = <<>> /\ bs = <<>> /\ at = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ tree' = IF e.ev = "tree" THEN e.tree ELSE tree
           /\ bs' = IF e.ev = "tree" THEN Branches(e.tree) ELSE bs
           /\ at' = IF e.ev = "tree" THEN <<0, 0, 0>> ELSE IF e.ev = "branch" THEN [at EXCEPT ![e.it] = @ + 1]
                    ELSE IF e.ev = "end" THEN [at EXCEPT ![e.it] = 0] ELSE at
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
