------------------------------ MODULE GenCurve ------------------------------
(* Every sequence of replacing the strains and values of a curve and of      *)
(* evaluating it, as histories to be replayed in the implementation.         *)
EXTENDS Curve, Histories
CONSTANTS Depth, Params
VARIABLES c, h
gvars == <<c, h>>
Lim(p) == IF p = "damping" THEN <<"0", "0.49">> ELSE <<"0.001", "1">>
\* tables a strain vector and a value vector may come from; the second and third strains are out of order
Xs == <<<<"1e-5", "1e-4", "1e-2">>, <<"1e-3", "1e-4", "1e-6">>, <<"3e-5", "3e-3", "3e-4">>>>
Ys == <<<<"0.9", "0.4", "0.1">>, <<"0.02", "0.3", "0.7">>, <<"0.5", "0", "1.2">>>>
Do(x, o) == c' = x /\ h' = Append(h, o)
Init == \E p \in Params, i \in 1..3 :
          /\ c = [x |-> Xs[i], y |-> Ys[1], lo |-> Lim(p)[1], hi |-> Lim(p)[2]]
          /\ h = <<[op |-> "new", param |-> p, x |-> Xs[i], y |-> Ys[1]]>>
Next == /\ Len(h) <= Depth
        /\ \/ \E i \in 1..3 : Do([c EXCEPT !.x = Xs[i]], [op |-> "strains", x |-> Xs[i]])
           \/ \E i \in 2..3 : Do([c EXCEPT !.y = Ys[i]], [op |-> "values", y |-> Ys[i]])
           \/ \E i \in 2..3 : Do([c EXCEPT !.x = Xs[i], !.y = Ys[i]], [op |-> "both", x |-> Xs[i], y |-> Ys[i]])
           \/ Do(c, [op |-> "eval"])
Spec == Init /\ [][Next]_gvars
TypeOK == Len(c.x) = Len(c.y)
Emit == Len(h) <= Depth \/ Print1(h)
=============================================================================
