------------------------------- MODULE Curve -------------------------------
(* Nonlinear curves: tables over strain, interpolated linearly in log       *)
(* strain, constant outside the table, clipped to limits.                   *)
EXTENDS Num, Integers, Sequences

\* curve c = [kind |-> "table", x, y (sequences), lo, hi]
Clip(v, lo, hi) == RMin(RMax(v, lo), hi)

\* segment j with x[j] <= s < x[j+1]
RECURSIVE Segment(_, _, _)
Segment(xs, s, j) == IF j + 1 = Len(xs) \/ RLt(s, xs[j + 1]) THEN j ELSE Segment(xs, s, j + 1)

\* piecewise-linear interpolation of ys over transformed abscissae fx(xs)
Linear(xs, ys, s) ==
    IF Len(xs) = 1 \/ RLe(s, xs[1]) THEN R(ys[1])
    ELSE IF RLe(xs[Len(xs)], s) THEN R(ys[Len(ys)])
    ELSE LET j == Segment(xs, s, 1)
             t == (R(s) \ominus xs[j]) \oslash (R(xs[j + 1]) \ominus xs[j])
         IN R(ys[j]) \oplus (t \otimes (R(ys[j + 1]) \ominus ys[j]))

LogLinear(xs, ys, s) ==
    IF Len(xs) = 1 \/ RLe(s, xs[1]) THEN R(ys[1])
    ELSE IF RLe(xs[Len(xs)], s) THEN R(ys[Len(ys)])
    ELSE LET j == Segment(xs, s, 1)
             t == (RLn(s) \ominus RLn(xs[j])) \oslash (RLn(xs[j + 1]) \ominus RLn(xs[j]))
         IN R(ys[j]) \oplus (t \otimes (R(ys[j + 1]) \ominus ys[j]))

CurveAt(c, s) == Clip(LogLinear(c.x, c.y, s), c.lo, c.hi)

Between(v, a, b) == RLe(RMin(a, b), v) /\ RLe(v, RMax(a, b))
=============================================================================
