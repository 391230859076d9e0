-------------------------------- MODULE Fdm --------------------------------
(* Shapes of the strain spectrum of the frequency-dependent calculation.    *)
EXTENDS Num, Integers, Sequences

Largest(s) == FoldN(Len(s), R(0), LAMBDA acc, j : RMax(acc, s[j]))
Trapz(y, x) == RSum(SeqGen(Len(x) - 1, LAMBDA j :
                 "0.5" \otimes ((R(y[j]) \oplus y[j + 1]) \otimes (R(x[j + 1]) \ominus x[j]))))

\* ---- zr15: the spectrum itself
Raw(f, s) == LET top == Largest(s) IN SeqMap(s, LAMBDA v : R(v) \oslash top)

\* ---- ko: Konno-Ohmachi smoothing and the running maximum from the highest frequency
Log10(v) == RLn(v) \oslash RLn(10)
KoWeight(f, fc, bw) ==
    IF REq(fc, 0) THEN (IF REq(f, 0) THEN R(1) ELSE R(0))
    ELSE IF REq(f, fc) THEN R(1)
    ELSE IF REq(f, 0) THEN R(0)
    ELSE LET x == R(bw) \otimes Log10(R(f) \oslash fc) IN RPow(RAbs(RSin(x) \oslash x), 4)
Smooth(f, s, bw) == SeqGen(Len(f), LAMBDA i :
    LET wt == SeqGen(Len(f), LAMBDA j : KoWeight(f[j], f[i], bw))
    IN RSum(SeqGen(Len(f), LAMBDA j : R(wt[j]) \otimes s[j])) \oslash RSum(wt))
Ko(f, s, bw) ==
    LET sm == Smooth(f, s, bw)
        n == Len(f)
        run == FoldN(n, <<>>, LAMBDA acc, k : LET v == sm[n + 1 - k] IN
                     Append(acc, IF k = 1 THEN v ELSE RMax(acc[k - 1], v)))
    IN Raw(f, SeqGen(n, LAMBDA i : run[n + 1 - i]))

\* ---- ka02: exponential-power decay in f over the mean frequency, fitted above it, at most one
MeanFreq(f, s) == Trapz(SeqGen(Len(f), LAMBDA j : R(f[j]) \otimes s[j]), f) \oslash Trapz(s, f)
Ka(f, s) ==
    LET fm == MeanFreq(f, s)
        nb == FoldN(Len(f), 0, LAMBDA acc, j : IF RLt(f[j], fm) THEN acc + 1 ELSE acc)   \* frequencies below the mean
        avg == Trapz(SubSeq(s, 1, nb), SubSeq(f, 1, nb)) \oslash fm
        n == Len(f) - nb
        x == SeqGen(n, LAMBDA k : R(f[nb + k]) \oslash fm)
        y == SeqGen(n, LAMBDA k : RLn(R(s[nb + k]) \oslash avg))
        p == SeqMap(x, LAMBDA v : RNeg(v))
        q == SeqMap(x, LAMBDA v : RNeg(RLn(v)))
        Dot(u, v) == RSum(SeqGen(n, LAMBDA k : R(u[k]) \otimes v[k]))
        pp == Dot(p, p) pq == Dot(p, q) qq == Dot(q, q) py == Dot(p, y) qy == Dot(q, y)
        det == (pp \otimes qq) \ominus (pq \otimes pq)
        \* a single frequency above the mean: the smallest solution
        a == IF n = 1 THEN py \oslash (pp \oplus qq) ELSE ((py \otimes qq) \ominus (qy \otimes pq)) \oslash det
        b == IF n = 1 THEN qy \oslash (pp \oplus qq) ELSE ((qy \otimes pp) \ominus (py \otimes pq)) \oslash det
    IN SeqMap(f, LAMBDA v : LET u == R(v) \oslash fm IN
         RExp(RMin(0, RNeg(a \otimes u) \ominus RMax(RLn("2.220446049250313e-16"), b \otimes RLn(RMax("2.2250738585072014e-308", u))))))

=============================================================================
