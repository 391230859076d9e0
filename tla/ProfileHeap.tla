---------------------------- MODULE ProfileHeap ----------------------------
(***************************************************************************)
(* Profiles as sequences of references to mutable layer objects, and the    *)
(* operations that derive a new profile from an existing one.  A layer      *)
(* knows the profile it belongs to (its owner) and re-derives that          *)
(* profile's depths when its thickness changes.  Every deriving operation   *)
(* allocates fresh layers; the invariants state what a user relies on: no   *)
(* layer is shared, every layer's owner is the profile that lists it, and   *)
(* an edit is visible in one profile only.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thicks,      \* possible thicknesses
          MaxProfiles, MaxLayers, MaxHeap

VARIABLES heap,        \* sequence of layer objects [th, nl, owner]
          profs,       \* sequence of profiles, each a sequence of heap indices
          edited       \* profile changed by the last step (0: none)

vars == <<heap, profs, edited>>

Alloc(h, obj) == <<Append(h, obj), Len(h) + 1>>

\* Extend the heap with copies of the given abstract layers; returns <<heap, ids>>
RECURSIVE AllocAll(_, _, _, _)
AllocAll(h, ls, owner, ids) ==
    IF ls = <<>> THEN <<h, ids>>
    ELSE LET a == Alloc(h, [th |-> Head(ls).th, nl |-> Head(ls).nl, owner |-> owner])
         IN AllocAll(a[1], Tail(ls), owner, Append(ids, a[2]))

View(h, p) == [i \in 1..Len(p) |-> [th |-> h[p[i]].th, nl |-> h[p[i]].nl]]
Total(v)   == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE v[i].th + S(i - 1)
              IN S(Len(v))

NewProfile(v) ==
    LET a == AllocAll(heap, v, Len(profs) + 1, <<>>) IN
    /\ Len(profs) < MaxProfiles
    /\ Len(a[1]) <= MaxHeap
    /\ heap' = a[1]
    /\ profs' = Append(profs, a[2])
    /\ edited' = 0

\* split every layer above the half-space in sublayers of thickness <= opt
RECURSIVE Split(_, _, _)
Split(v, opt, nlonly) ==
    IF Len(v) <= 1 THEN v
    ELSE LET x == Head(v)
             cnt == IF (x.nl \/ ~nlonly) /\ x.th > 0 THEN (x.th + opt - 1) \div opt ELSE 1
             \* only whole sublayers exist in this abstraction
             ok == x.th % cnt = 0
         IN (IF ok THEN [i \in 1..cnt |-> [x EXCEPT !.th = x.th \div cnt]] ELSE <<x>>)
            \o Split(Tail(v), opt, nlonly)

Init == heap = <<>> /\ profs = <<>> /\ edited = 0

Make == \E n \in 1..MaxLayers : \E f \in [1..n -> Thicks \X BOOLEAN] :
            /\ profs = <<>>
            /\ NewProfile([i \in 1..n |-> [th |-> f[i][1], nl |-> f[i][2]]])
Copy == \E k \in 1..Len(profs) : NewProfile(View(heap, profs[k]))
Discretize == \E k \in 1..Len(profs), o \in 1..2, b \in BOOLEAN :
            NewProfile(Split(View(heap, profs[k]), o, b))
HalfSpaceAt == \E k \in 1..Len(profs) :      \* keep a prefix and the half-space
            LET v == View(heap, profs[k]) IN
            Len(v) > 2 /\ NewProfile(SubSeq(v, 1, Len(v) - 2) \o <<v[Len(v)]>>)
Edit == \E k \in 1..Len(profs) : \E i \in 1..Len(profs[k]), t \in Thicks :
            /\ heap' = [heap EXCEPT ![profs[k][i]].th = t]
            /\ edited' = k
            /\ UNCHANGED profs
Next == Make \/ Copy \/ Discretize \/ HalfSpaceAt \/ Edit
Spec == Init /\ [][Next]_vars

Range(s) == {s[i] : i \in 1..Len(s)}
NoSharing == /\ \A j, k \in 1..Len(profs) : j # k => Range(profs[j]) \cap Range(profs[k]) = {}
             /\ \A k \in 1..Len(profs) : Cardinality(Range(profs[k])) = Len(profs[k])
Owned == \A k \in 1..Len(profs) : \A i \in 1..Len(profs[k]) : heap[profs[k][i]].owner = k
\* an edit shows in the edited profile only
Isolated == [][\A k \in 1..Len(profs) : edited' # k => View(heap', profs'[k]) = View(heap, profs[k])]_vars
\* deriving operations that keep the column keep its total depth
SplitKeepsDepth == \A k \in 1..Len(profs), o \in 1..2, b \in BOOLEAN :
    Total(Split(View(heap, profs[k]), o, b)) = Total(View(heap, profs[k]))
=============================================================================
