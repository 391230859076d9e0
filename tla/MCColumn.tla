------------------------------ MODULE MCColumn ------------------------------
(* Every small column, frequency and iteration of the averaging depth.       *)
EXTENDS Column, TLC
CONSTANTS Vels, Ths, Rhos, N, Fs
VARIABLES ls, f, z, zp, k, done
vars == <<ls, f, z, zp, k, done>>
Layers == [th : Ths, v : Vels, rho : Rhos]
Half == {[th |-> 0, v |-> v, rho |-> 2] : v \in Vels}
Columns == UNION {[1..n -> Layers] : n \in 0..N}
Init == /\ \E c \in Columns, h \in Half : ls = Append(c, h)
        /\ f \in Fs
        /\ z = StartDepth(ls, f) /\ zp = z /\ k = 0 /\ done = FALSE
Next == /\ ~done /\ k < 50
        /\ z' = NextDepth(ls, f, z) /\ zp' = z /\ k' = k + 1 /\ done' = Settled(z, z')
        /\ UNCHANGED <<ls, f>>
Spec == Init /\ [][Next]_vars
Near(a, b) == RClose(a, b, "1e-9", "1e-12")
Converges == k = 50 /\ ~done => Reversal(ls)
\* the definition: travel time to the averaging depth
Defined == k = 0 => Near(TimeTo(ls, QuarterDepth(ls, f)), R(1) \oslash (R(4) \otimes f))
Ended == done => LET x == TimeTo(ls, zp) \otimes (R(4) \otimes f) IN RLe("0.98", x) /\ RLe(x, "1.0205")
\* averages lie between the extremes; a uniform column has amplification one
Vmin == FoldN(Len(ls), R(ls[1].v), LAMBDA a, i : RMin(a, ls[i].v))
Vmax == FoldN(Len(ls), R(ls[1].v), LAMBDA a, i : RMax(a, ls[i].v))
Depths == {R(1), R(7), R(30), R(100)}
First == k = 0
Bounded == First => \A d \in Depths : RLe(Vmin \otimes "0.999999", AvgVel(ls, d)) /\ RLe(AvgVel(ls, d), Vmax \otimes "1.000001")
Uniform == First /\ REq(Vmin, Vmax) /\ (\A i \in 1..Len(ls) : REq(ls[i].rho, 2)) =>
    Near(Amp(ls, "standard", f), 1) /\ Near(AmpBand(ls, "standard", f)[1], 1) /\ Near(AmpBand(ls, "standard", f)[2], 1)
InBand == First => Within(Amp(ls, "standard", f), AmpBand(ls, "standard", f))
Found == done => Within(AmpFor(ls, RhoTo(ls, z), SlowTo(ls, zp), R("0.5")), AmpBand(ls, "standard", f))
\* splitting a layer changes nothing; velocities scale
Split(i) == LET h == [ls[i] EXCEPT !.th = R(@) \oslash 2] IN SubSeq(ls, 1, i - 1) \o <<h, h>> \o SubSeq(ls, i + 1, Len(ls))
Splits == First => \A i \in 1..Len(ls) - 1 : \A d \in Depths : Near(AvgVel(Split(i), d), AvgVel(ls, d)) /\ Near(RhoTo(Split(i), d), RhoTo(ls, d))
Faster == SeqMap(ls, LAMBDA la : [la EXCEPT !.v = R(2) \otimes @])
Scales == First /\ Len(ls) > 1 => /\ Near(Vs30(Faster), R(2) \otimes Vs30(ls))
                                  /\ Near(Rayleigh(Faster), R(2) \otimes Rayleigh(ls))
Monotonic == First => \A a, b \in Depths : RLt(a, b) => RLt(TimeTo(ls, a), TimeTo(ls, b))
\* a finely layered uniform column has nearly its own velocity
Fine == [i \in 1..40 |-> IF i = 40 THEN [th |-> 0, v |-> 500, rho |-> 2] ELSE [th |-> 1, v |-> 250, rho |-> 2]]
ASSUME RClose(Rayleigh(Fine), R(250), "0.01", 0)
=============================================================================
