---------------------------- MODULE SessionTrace ----------------------------
(* Many calculations of the implementation on shared objects.  State: what   *)
(* every motion and profile is, and the results of fresh calculations         *)
(* (fresh calculator, motion and profile) for each combination of inputs.     *)
EXTENDS Num, TraceBase
VARIABLES mots, profs, memo, l
vars == <<mots, profs, memo, l>>

\* what a calculation is given: the calculator's parameters, the motion, the profile, the input location
Key(e) == <<e.calc, mots[e.m], profs[e.p], e.lin>>
Find(k) == {i \in 1..Len(memo) : memo[i].key = k}

\* Chk with a relative measure per quantity
Close(a, b) == Len(a) = Len(b) /\
    LET top == FoldN(Len(a), R(0), LAMBDA acc, i : RMax(acc, RAbs(b[i]))) IN
    AllN(Len(a), LAMBDA i : RClose(a[i], b[i], "1e-7", RMul("1e-9", top)))
SameResult(r, s) ==
    Chk("Response", Close(r.response, s.response))
    \cup Chk("StrainResponse", Close(r.strain, s.strain))
    \cup Chk("LayerProperties", Close(r.layers, s.layers))

Failing(e) ==
    CASE e.ev = "objects" -> Chk("CallRaised", "raised" \in DOMAIN e => e.raised = "")        \* objects, perhaps after a history of their own
      [] e.ev = "fresh" -> {}
      [] e.ev = "edit" ->
           Chk("CallRaised", e.raised = "")
           \cup Chk("MotionsUnchanged", e.mots = mots)
           \cup Chk("OtherProfilesUnchanged", \A k \in 1..Len(profs) : k # e.p => e.profs[k] = profs[k])
      [] e.ev = "run" ->
           LET f == Find(Key(e)) IN
           Chk("MotionsUnchanged", e.mots = mots)
           \cup Chk("ProfilesUnchanged", e.profs = profs)
           \cup IF f = {} THEN {"TraceWithoutReference"}
                ELSE LET m == memo[CHOOSE i \in f : TRUE] IN
                     Chk("SameOutcome", e.raised = m.raised)
                     \cup IF e.raised = "" /\ m.raised = "" THEN SameResult(e.res, m.res) ELSE {}
      [] e.ev = "keep" ->     \* without reset: like a linear column with the current properties
           Chk("MotionsUnchanged", e.mots = mots)
           \cup Chk("ProfilesUnchanged", e.profs = profs)
           \cup Chk("CallRaised", e.raised = "")
           \cup IF e.raised # "" THEN {} ELSE Chk("UsesCurrentProperties", Close(e.res.response, e.ref.response))
                \cup Chk("KeepsCurrentProperties", Close(e.after, e.before))

Init == mots = <<>> /\ profs = <<>> /\ memo = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ mots' = IF e.ev = "objects" THEN e.mots ELSE mots
           /\ profs' = IF e.ev \in {"objects", "edit"} THEN e.profs ELSE profs
           /\ memo' = CASE e.ev = "objects" -> <<>>
                        [] e.ev = "fresh" -> Append(memo, [key |-> Key(e), raised |-> e.raised, res |-> e.res])
                        [] OTHER -> memo
           /\ Report(l, Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
