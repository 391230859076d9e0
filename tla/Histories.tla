----------------------------- MODULE Histories -----------------------------
(* Histories generated from the specification, to be replayed by a driver    *)
(* in the implementation: every behaviour of the given depth is printed.     *)
EXTENDS TLC, Json, Integers, Sequences
Print1(h) == PrintT(<<"HISTORY", ToJson(h)>>)
=============================================================================
