----------------------------- MODULE GenCopies -----------------------------
(* Every sequence of deriving, editing and calculating with profiles that    *)
(* start from one profile, as histories to be replayed in the implementation *)
EXTENDS ProfileHeap, Histories
CONSTANTS Starts, Depth
VARIABLE h
gvars == <<heap, profs, edited, h>>
\* a start: layers [th, nl] from the surface to the half-space
Start(s) == CASE s = 1 -> <<[th |-> 4, nl |-> TRUE], [th |-> 2, nl |-> FALSE], [th |-> 0, nl |-> FALSE]>>
              [] s = 2 -> <<[th |-> 2, nl |-> FALSE], [th |-> 2, nl |-> FALSE], [th |-> 6, nl |-> TRUE], [th |-> 0, nl |-> FALSE]>>
GInit == \E s \in Starts :
           LET a == AllocAll(<<>>, Start(s), 1, <<>>) IN
           heap = a[1] /\ profs = <<a[2]>> /\ edited = 0 /\ h = <<[op |-> "make", start |-> s]>>
Op(o) == h' = Append(h, o)
Stay(k) == UNCHANGED <<heap, profs>> /\ edited' = k
GNext ==
    /\ Len(h) <= Depth
    /\ \E k \in 1..Len(profs) :
         \/ NewProfile(View(heap, profs[k])) /\ Op([op |-> "copy", k |-> k])
         \/ \E b \in BOOLEAN : NewProfile(Split(View(heap, profs[k]), 2, b)) /\ Op([op |-> "disc", k |-> k, nlonly |-> b])
         \/ \E w \in {"top", "deep", "half"}, t \in Thicks :      \* how many layers a discretisation makes is left open
              LET n == Len(profs[k])
                  i == CASE w = "top" -> 1 [] w = "deep" -> n - 1 [] w = "half" -> n IN
              /\ heap' = [heap EXCEPT ![profs[k][i]].th = t] /\ edited' = k /\ UNCHANGED profs
              /\ Op([op |-> "thick", k |-> k, at |-> w, x |-> t])
         \/ \E o \in {"vel", "dmin", "wt", "calc"} : Stay(k) /\ Op([op |-> o, k |-> k, at |-> "top"])
         \/ /\ LET a == AllocAll(heap, <<[th |-> 3, nl |-> FALSE]>>, k, <<>>) IN
               heap' = a[1] /\ profs' = [profs EXCEPT ![k] = @ \o a[2]] /\ edited' = k
            /\ Op([op |-> "append", k |-> k])
GSpec == GInit /\ [][GNext]_gvars
Isolation == [][\A k \in 1..Len(profs) : edited' # k => View(heap', profs'[k]) = View(heap, profs[k])]_gvars
Emit == Len(h) <= Depth \/ Print1(h)
=============================================================================
