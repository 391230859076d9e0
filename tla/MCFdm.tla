------------------------------- MODULE MCFdm -------------------------------
(* Every strain spectrum of N values from a small set, over two frequency   *)
(* grids: the shapes are bounded by one and have the form they should.       *)
EXTENDS Fdm, TLC
CONSTANTS Vals, N
VARIABLES s, f
Grid == {[k \in 1..N |-> R(k - 1)], [k \in 1..N |-> RPow(2, k)]}
Init == s = <<>> /\ f \in Grid
Next == Len(s) < N /\ \E v \in Vals : s' = Append(s, v) /\ f' = f
Spec == Init /\ [][Next]_<<s, f>>
Full == Len(s) = N
Le1(h) == \A j \in 1..N : RLe(0, h[j]) /\ RLe(h[j], "1.000000000001")
RawOK == Full => LET h == Raw(f, s) IN Le1(h) /\ \E j \in 1..N : REq(h[j], 1)
\* falls with frequency, one at the lowest, and its steps follow the smoothed spectrum
KoOK == Full => \A bw \in {20, 40} : LET h == Ko(f, s, bw) sm == Smooth(f, s, bw) IN
    /\ Le1(h) /\ RClose(h[1], 1, "1e-12", 0)
    /\ \A j \in 1..N - 1 : RLe(h[j + 1], h[j])
    /\ \A j \in 1..N : RLe(RDiv(sm[j], Largest(sm)), RAdd(h[j], "1e-12"))
\* smoothing keeps a constant and never leaves the range of the spectrum
SmoothOK == Full => LET sm == Smooth(f, s, 20) IN \A j \in 1..N :
    RLe(sm[j], RMul("1.000000001", Largest(s))) /\ ((\A i \in 1..N : s[i] = s[1]) => RClose(sm[j], s[1], "1e-9", 0))
KaOK == Full /\ RLe(MeanFreq(f, s), f[N - 1]) /\ RLt(f[2], MeanFreq(f, s)) => Le1(Ka(f, s))
=============================================================================
