------------------------------- MODULE Stats -------------------------------
(* Statistics and tables of recorded results.  A table is a sequence of      *)
(* columns of equal length, missing values being not-a-number.               *)
EXTENDS Num, Integers, Sequences

\* the numbers of a sequence that are not missing
RECURSIVE Present_(_, _)
Present_(s, i) == IF i > Len(s) THEN <<>> ELSE IF RNaN(s[i]) THEN Present_(s, i + 1) ELSE <<R(s[i])>> \o Present_(s, i + 1)
Present(s) == Present_(s, 1)
Mean(s) == RSum(s) \oslash Len(s)
LnRow(row) == Present(SeqMap(row, LAMBDA v : RLn(v)))
Median(row) == LET s == LnRow(row) IN IF s = <<>> THEN R("nan") ELSE RExp(Mean(s))
LnStd(row) == LET s == LnRow(row) IN
    IF s = <<>> THEN R("nan")
    ELSE LET m == Mean(s) IN RSqrt(Mean(SeqMap(s, LAMBDA v : (v \ominus m) \otimes (v \ominus m))))
Row(cols, i) == SeqMap(cols, LAMBDA c : c[i])

\* the value of a stepped profile at depth z: the entry at the next depth at or below z
RECURSIVE Next_(_, _, _)
Next_(refs, z, k) == IF k = Len(refs) \/ RLe(z, refs[k]) THEN k ELSE Next_(refs, z, k + 1)
CountPresent(refs) == Len(Present(refs))
StepAt(refs, vals, z) == LET n == CountPresent(refs) IN R(vals[Next_(SubSeq(refs, 1, n), z, 1)])
=============================================================================
