------------------------------ MODULE EqlLoop ------------------------------
(* Control of the equivalent-linear iteration.  Each iteration reports      *)
(* whether a strain was capped and whether all properties changed by less    *)
(* than the tolerance; the loop then converges, gives up, raises or goes on. *)
EXTENDS Naturals, Integers, Sequences

\* k: number of iterations made before this one; last: the previous iteration was capped
Decide(k, maxit, cap, last, conv) ==
    IF conv THEN "converged"
    ELSE IF cap /\ last THEN "raised"
    ELSE IF k + 1 >= maxit THEN "limit"
    ELSE "go"
=============================================================================
