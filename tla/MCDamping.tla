------------------------------ MODULE MCDamping ------------------------------
(* Every small column, pattern of excluded layers and sequence of targets.   *)
EXTENDS Damping, TLC
CONSTANTS Vels, Ths, Damps, N, Targets, Steps
VARIABLES ls, first, last, k
vars == <<ls, first, last, k>>
Layers == [th : Ths, v : Vels, d : Damps, rho : {2}]
Half == {[th |-> t, v |-> 1500, d |-> "0.01", rho |-> 2] : t \in {0, 5}}
Fs == <<50, 90, 130, 200>>
Init == /\ \E c \in UNION {[1..n -> Layers] : n \in 1..N}, h \in Half : ls = Append(c, h)
        /\ first = ls /\ last = <<>> /\ k = 0
Try(out, t) ==
    LET s == Scatter(ls, Fs) IN
    /\ k' = k + 1 /\ first' = first
    /\ IF Attainable(ls, out, t, s)
       THEN ls' = Adjust(ls, out, t, s) /\ last' = <<out, R(t), s, ls, TRUE>>
       ELSE ls' = ls /\ last' = <<out, R(t), s, ls, FALSE>>
Next == k < Steps /\ \E out \in [1..Len(ls) -> BOOLEAN], t \in Targets : Try(out, t)
Spec == Init /\ [][Next]_vars
Near(a, b) == RClose(a, b, "1e-9", "1e-12")
Done == last # <<>> /\ last[5]
Hits == Done => Near(SiteAtten(ls) \oplus last[3], last[2])
Inverse == Done => \A i, j \in Selected(ls, last[1]) : Near(R(ls[i].d) \otimes ls[i].v, R(ls[j].d) \otimes ls[j].v) /\ RLt(0, ls[i].d)
OnlySelected == \A i \in 1..Len(ls) :
    /\ Done /\ last[1][i] => ls[i] = last[4][i]
    /\ [ls[i] EXCEPT !.d = 0] = [first[i] EXCEPT !.d = 0]
RefusedKeeps == last # <<>> /\ ~last[5] => ls = last[4]
Damped == \A i \in 1..Len(ls) : RLt(0, ls[i].d)
\* without contrasts in velocity, scattering is negligible and the two attenuations agree
NoContrast == (\A i \in 1..Len(ls) : REq(ls[i].v, 1500) /\ REq(ls[i].d, "0.01")) /\ k = 0 => RClose(TotalAtten(ls, Fs), RSum(SeqGen(Len(ls) - 1, LAMBDA i : Incr(ls[i]))), "1e-3", "1e-12")
=============================================================================
