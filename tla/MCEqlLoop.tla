----------------------------- MODULE MCEqlLoop -----------------------------
(* All behaviours of the loop against every environment; each finished       *)
(* behaviour is printed as a script to be replayed into the implementation.  *)
EXTENDS EqlLoop, TLC
CONSTANTS MaxIterations
VARIABLES maxit, script, outcome
vars == <<maxit, script, outcome>>
Init == maxit \in 1..MaxIterations /\ script = <<>> /\ outcome = "go"
K == Len(script)
Last == K > 0 /\ script[K].cap
Iterate == /\ outcome = "go"
           /\ \E cap, conv \in BOOLEAN :
                /\ script' = Append(script, [cap |-> cap, conv |-> conv])
                /\ outcome' = Decide(K, maxit, cap, Last, conv)
           /\ UNCHANGED maxit
Next == Iterate
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(outcome # "go")
NoFurther == K <= maxit
ConvergedAtFirst == \A k \in 1..K : script[k].conv => k = K /\ outcome = "converged"
RaisedIffTwoCaps == outcome = "raised" <=>
    K >= 2 /\ script[K].cap /\ script[K - 1].cap /\ \A k \in 1..K : ~script[k].conv
NeverThreeCaps == \A k \in 1..K - 2 : ~(script[k].cap /\ script[k + 1].cap)
LimitOnlyAtLimit == outcome = "limit" => K = maxit /\ \A k \in 1..K : ~script[k].conv
Emit == outcome = "go" \/ PrintT(<<"SCRIPT", maxit, outcome, [k \in 1..K |-> <<script[k].cap, script[k].conv>>]>>)
=============================================================================
