------------------------------ MODULE MCStats ------------------------------
(* All rows of up to N values from a set, some missing, and all stepped       *)
(* profiles of up to N steps with ascending depths.                            *)
EXTENDS Stats, FiniteSets, TLC
CONSTANTS Vals, N
VARIABLES row
Init == row = <<>>
Next == Len(row) < N /\ \E v \in Vals : row' = Append(row, R(v))
Spec == Init /\ [][Next]_row
P == Present(row)
NearBy(a, b) == RClose(a, b, "1e-12", "1e-12")
Lo(s) == FoldN(Len(s), R("inf"), LAMBDA acc, k : RMin(acc, s[k]))
Hi(s) == FoldN(Len(s), R(0), LAMBDA acc, k : RMax(acc, s[k]))
Within == P # <<>> => RLe(Lo(P), RMul("1.000000001", Median(row))) /\ RLe(Median(row), RMul("1.000000001", Hi(P)))
MissingIgnored == NearBy(Median(Append(row, R("nan"))), Median(row)) \/ P = <<>>
SingleResult == Len(P) = 1 => NearBy(Median(row), P[1]) /\ REq(LnStd(row), 0)
Constant == P # <<>> /\ (\A i \in 1..Len(P) : P[i] = P[1]) => NearBy(LnStd(row), 0)
Reversed == P # <<>> => LET q == SeqGen(Len(row), LAMBDA i : row[Len(row) + 1 - i]) IN NearBy(LnStd(q), LnStd(row)) /\ NearBy(Median(q), Median(row))
Spread == P # <<>> => RLe(LnStd(row), RAdd("1e-12", RLn(RDiv(Hi(P), Lo(P)))))
\* stepped profile with depths 0, 1, 3, 5, ... and values P
D == SeqGen(Len(P), LAMBDA i : R(IF i = 1 THEN 0 ELSE 2 * i - 3)) \o <<R("nan")>>
Steps == P # <<>> => \A i \in 1..Len(P) :
    /\ StepAt(D, P, D[i]) = P[i]
    /\ i > 1 => StepAt(D, P, D[i - 1] \oplus "0.01") = P[i]
    /\ StepAt(D, P, D[Len(P)] \oplus 9) = P[Len(P)]
=============================================================================
