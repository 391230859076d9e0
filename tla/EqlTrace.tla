------------------------------ MODULE EqlTrace ------------------------------
(* Equivalent-linear calculations of the implementation, run to the end by  *)
(* the specification from the same inputs.  State: the layers of the current *)
(* profile as the history left them.                                         *)
EXTENDS Eql, TraceBase
VARIABLES ls, ths, res, l
vars == <<ls, ths, res, l>>

Ratio(x) == IF x.mag = "None" THEN R(x.ratio) ELSE RatioOf(x.mag)
Ctx(e) == IF e.x.m.kind = "ts"
          THEN [e.x EXCEPT !.ratio = Ratio(e.x), !.m = [kind |-> "ts", w |-> @.w, n |-> @.n, dt |-> @.dt, fas |-> @.fas, pgv |-> @.pgv, tw |-> Twiddle(@.n)]]
          ELSE [e.x EXCEPT !.ratio = Ratio(e.x)]
\* where the specification cannot tell (or the calculation failed) take over what is there
Adopt(o, la) == [la EXCEPT !.eps = o.eps, !.G = o.G, !.D = o.D, !.assigned = TRUE, !.smax = <<>>]

Run1(e) == Run(Ctx(e), ls, ths)
Same(got, want) == LET n == MaxLen(got, want) IN
    /\ Len(got) \in {1, n} /\ Len(want) \in {1, n}
    /\ AllN(n, LAMBDA i : RClose(At(got, i), At(want, i), "1e-6", "1e-13"))

Judge(e, r) ==
    IF e.ev = "profile" THEN Chk("CallRaised", e.raised = "")
    ELSE IF r.st = "vague" THEN {}
    ELSE IF r.st = "raised" THEN Chk("StrainLimitError", e.raised = "RuntimeError")
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE LET n == Len(ls) IN
         Chk("Strains", \A i \in 1..n : Same(e.o[i].eps, r.ls[i].eps))
         \cup Chk("Moduli", \A i \in 1..n : Same(e.o[i].G, r.ls[i].G))
         \cup Chk("Dampings", \A i \in 1..n : Same(e.o[i].D, r.ls[i].D))
         \cup Chk("MaximumStrains", \A i \in 1..n - 1 : RClose(e.o[i].smax, r.pk[i], "1e-6", "1e-15"))

Init == ls = <<>> /\ ths = <<>> /\ res = "none" /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ IF e.ev = "profile"
              THEN /\ ls' = SeqMap(e.ls, LAMBDA x : Make(x.soil, x.vel, x.dmin))
                   /\ ths' = SeqMap(e.ls, LAMBDA x : x.th)
                   /\ res' = "none"
                   /\ Report(l, Judge(e, <<>>))
              ELSE LET r == Run1(e) IN
                   /\ ls' = IF r.st \in {"vague", "raised"} \/ e.raised # ""
                            THEN IF Len(e.o) = Len(ls) THEN SeqGen(Len(ls), LAMBDA i : Adopt(e.o[i], ls[i])) ELSE ls
                            ELSE r.ls
                   /\ ths' = ths
                   /\ res' = r.st
                   /\ PrintT(<<"RESULT", IF e.expect # "" /\ e.expect # r.st THEN "mismatch" ELSE r.st, r.it>>)
                   /\ Report(l, Judge(e, r))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
