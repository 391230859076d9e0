------------------------------ MODULE FdmTrace ------------------------------
(* Frequency-dependent equivalent-linear calculations of the implementation: *)
(* the strains of the final assignment against the final waves, and the       *)
(* properties against the strains.  State: the layers of the profile, their   *)
(* properties as of the last calculation.                                     *)
EXTENDS LayerDyn, Fdm, TraceBase
VARIABLES ls, l
vars == <<ls, l>>

Shape(e, s) == CASE e.method = "zr15" -> Raw(e.f, s)
                 [] e.method = "ko" -> Ko(e.f, s, e.bw)
                 [] e.method = "ka02" -> Ka(e.f, s)

\* the strain spectrum of layer i from its transfer function and the motion's amplitudes
Spectrum(e, i) == SeqGen(Len(e.f), LAMBDA j : CAbs(CMul(e.tf[i][j], e.fas[j])))
Eff(e, i) == R(e.ratio) \otimes e.pk[i]
Want(e, i) == LET sh == Shape(e, Spectrum(e, i)) eff == Eff(e, i) IN
    SeqMap(sh, LAMBDA v : LET w == eff \otimes v IN IF e.limit = "None" THEN w ELSE RMin(w, e.limit))

Same(got, want, rtol) == LET n == MaxLen(got, want) IN
    /\ Len(got) \in {1, n} /\ Len(want) \in {1, n}
    /\ AllN(n, LAMBDA i : RClose(At(got, i), At(want, i), rtol, "1e-13"))

Failing(e) ==
    IF e.raised = "RuntimeError" /\ e.limit # "None" THEN {}       \* C09 decides when
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE LET n == Len(e.o) IN
         Chk("OneStrainPerFrequency", \A i \in 1..n - 1 : Len(e.o[i].eps) = Len(e.f))
         \cup Chk("NotAboveEffectiveStrain", \A i \in 1..n - 1 : \A j \in 1..Len(e.o[i].eps) :
                   RLe(e.o[i].eps[j], RMul("1.000000001", Eff(e, i))) /\ (e.limit # "None" => RLe(e.o[i].eps[j], e.limit)))
         \cup Chk("Shape", \A i \in 1..n - 1 : Same(e.o[i].eps, Want(e, i), IF e.method = "ka02" THEN "1e-5" ELSE "1e-7"))
         \cup Chk("Modulus", \A i \in 1..n - 1 : Same(e.o[i].G, ModSeq(ls'[i], e.o[i].eps), "1e-8"))
         \cup Chk("Damping", \A i \in 1..n - 1 : Same(e.o[i].D, DampSeq(ls'[i], e.o[i].eps), "1e-8"))
         \cup Chk("MaximumStrain", \A i \in 1..n - 1 : RClose(e.o[i].smax, e.pk[i], "1e-9", "1e-15"))

Init == ls = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ ls' = IF e.ev = "profile" THEN SeqMap(e.ls, LAMBDA x : Make(x.soil, x.vel, x.dmin))
                    ELSE IF e.raised # "" THEN ls
                    ELSE SeqGen(Len(ls), LAMBDA i : [ls[i] EXCEPT !.eps = e.o[i].eps, !.G = e.o[i].G, !.D = e.o[i].D])
           /\ Report(l, IF e.ev = "profile" THEN {} ELSE Failing(e))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
