------------------------------ MODULE KeysTrace ------------------------------
(* Soil types and layers of the implementation compared, hashed and used as  *)
(* keys.  State: the objects, the hashes seen, the dictionary.               *)
EXTENDS Keys, TraceBase
VARIABLES st, l
vars == <<st, l>>
Empty == [objs |-> <<>>, hash |-> <<>>, d |-> <<>>]
O(i) == st.objs[i]
Is(i, k) == Eq3(O(i), O(k)) = "eq"
Judge(got, want) == want = "any" \/ (got <=> want = "eq")
Found(i) == Get(st.d, LAMBDA k : Is(i, k))
Failing(e) ==
    IF e.raised # "" /\ e.ev # "index" THEN {"CallRaised"}
    ELSE CASE e.ev = "objs" -> {}
      [] e.ev = "pair" -> LET q == Eq3(O(e.i), O(e.j)) IN
           Chk("Equality", Judge(e.eq, q)) \cup Chk("Symmetric", e.eq = e.qe) \cup Chk("Inequality", e.ne = ~e.eq)
           \cup Chk("EqualHash", e.eq => e.hi = e.hj)
           \cup Chk("HashKept", \A x \in {<<e.i, e.hi>>, <<e.j, e.hj>>} : st.hash[x[1]] \in {"", x[2]})
      [] e.ev = "put" -> Chk("Size", e.size = Len(Put(st.d, e.i, e.v, LAMBDA k : Is(e.i, k))))
      [] e.ev = "get" -> Chk("Lookup", e.got = Found(e.i)) \cup Chk("Member", e.member = (Found(e.i) # <<>>))
      [] e.ev = "drop" -> Chk("Dropped", e.was = (Found(e.i) # <<>>)) \cup Chk("Size", e.size = Len(Drop(st.d, LAMBDA k : Is(e.i, k))))
      [] e.ev = "unique" -> Chk("Unique", e.size = Cardinality({i \in 1..Len(e.ids) : \A j \in 1..i-1 : Eq3(O(e.ids[i]), O(e.ids[j])) # "eq"}))
      [] e.ev = "change" -> {}
      [] e.ev = "index" ->
           LET ls == SeqGen(Len(e.ids), LAMBDA k : O(e.ids[k]))
               at == Position(ls, O(e.i))  any == \E k \in 1..Len(ls) : LayerEq(ls[k], O(e.i)) = "any" IN
           IF at = <<>> /\ any THEN {}
           ELSE Chk("Contains", e.member = (at # <<>>))
                \cup IF at = <<>> THEN Chk("NotThere", e.raised = "ValueError") ELSE Chk("Index", e.raised = "" /\ e.at = at[1] - 1 )
      [] e.ev = "types" -> Chk("SoilTypes", e.got = Distinct(SeqGen(Len(e.ids), LAMBDA k : O(e.ids[k]).soil.id), {}))
NextState(e) ==
    CASE e.ev = "objs" -> [objs |-> e.objs, hash |-> [i \in 1..Len(e.objs) |-> ""], d |-> <<>>]
      [] e.ev = "pair" /\ e.raised = "" -> [st EXCEPT !.hash[e.i] = e.hi, !.hash[e.j] = e.hj]
      [] e.ev = "put" -> [st EXCEPT !.d = Put(@, e.i, e.v, LAMBDA k : Is(e.i, k))]
      [] e.ev = "drop" -> [st EXCEPT !.d = Drop(@, LAMBDA k : Is(e.i, k))]
      [] e.ev = "change" -> [st EXCEPT !.objs = e.objs, !.hash = IF e.key THEN [i \in 1..Len(st.objs) |-> ""] ELSE @]
      [] OTHER -> st
Init == st = Empty /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN st' = NextState(e) /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
