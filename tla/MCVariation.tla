----------------------------- MODULE MCVariation -----------------------------
(* The sampling process: a run of simulated profiles, each with one pair of  *)
(* variates per soil type and one chain of velocities down the layers, from  *)
(* every choice of variates on a grid.                                       *)
EXTENDS Variation
CONSTANTS Zs, Corrs, Percentiles, MaxCount, NLayers, Kinds
VARIABLES mode, kind, pct, count, rho, soil, i, done, refused, chain, corrs
vars == <<mode, kind, pct, count, rho, soil, i, done, refused, chain, corrs>>

Pcts == <<"0.5", "0.16", "0.84">>
PctsDeep == <<"0.5", "0.05", "0.16", "0.95">>
Seeds == [g |-> <<R(1), R("0.9"), R("0.5"), R("0.1")>>, d |-> <<R("0.008"), R("0.02"), R("0.08"), R("0.14")>>]
LimG == <<"0.05", "1">>
LimD == <<"0", "0.15">>
Model == [kind |-> kind, sg |-> "0.15", sd |-> "0.3"]
Gs(z1) == Curve(4, LAMBDA k : PointG(Model, Seeds.g[k], z1), LimG)
Ds(z2) == Curve(4, LAMBDA k : PointD(Model, Seeds.d[k], z2), LimD)

Subs(s) == {SubSeq(s, 1, k) : k \in 1..Len(s)}
Init == /\ mode \in {"random", "fixed_percentiles"} /\ kind \in Kinds
        /\ pct \in Subs(Percentiles) /\ count \in 1..MaxCount
        /\ rho \in {"-0.5", "0", "0.5"}
        /\ refused = (mode = "fixed_percentiles" /\ count % Len(pct) # 0)
        /\ i = 0 /\ done = <<>>
        /\ soil = [z1 |-> "none", z2 |-> "none"]
        /\ (mode = "random" => Len(pct) = 1 /\ rho = "0")
        /\ IF mode = "random" /\ count = 1 /\ kind = "spid" THEN corrs \in [1..(NLayers - 1) -> Corrs]
           ELSE corrs = [k \in 1..(NLayers - 1) |-> "0"]
        /\ chain = <<>>

\* the variates at a percentile: z1 by bisection of its distribution function
RECURSIVE Bisect(_, _, _, _)
Bisect(p, lo, hi, k) == LET mid == (lo \oplus hi) \otimes "0.5" IN
                        IF k = 0 THEN mid ELSE IF RLt(PhiTrunc(mid), p) THEN Bisect(p, mid, hi, k - 1) ELSE Bisect(p, lo, mid, k - 1)
AtPercentile(p) == LET z == Bisect(p, RNeg(Limit), Limit, 50) IN <<z, Partner(z, rho)>>

Sample == /\ ~refused /\ i < count
          /\ LET take(z) == soil' = [z1 |-> z[1], z2 |-> z[2]] IN
             IF mode = "random" THEN \E a, b \in Zs : take(<<R(a), R(b)>>)
             ELSE take(AtPercentile(pct[(i % Len(pct)) + 1]))
          /\ i' = i + 1
          /\ done' = IF mode = "random" THEN done ELSE Append(done, Gs(soil'.z1) \o Ds(soil'.z2))
          /\ UNCHANGED <<mode, kind, pct, count, rho, refused, chain, corrs>>

\* the velocities of the layers: each follows its neighbour and a noise e
Link == /\ ~refused /\ i = count /\ Len(chain) < NLayers /\ mode = "random" /\ count = 1 /\ kind = "spid"
        /\ chain' = Append(chain, Len(chain) + 1)
        /\ UNCHANGED <<mode, kind, pct, count, rho, soil, i, done, refused, corrs>>
Next == Sample \/ Link
Spec == Init /\ [][Next]_vars

\* the chain written as weights on independent unit noises e_1 .. e_n:
\* row k = corr_(k-1) row (k-1) + sqrt(1 - corr^2) e_k
RECURSIVE Row(_)
Row(k) == SeqGen(NLayers, LAMBDA j : IF k = 1 THEN (IF j = 1 THEN R(1) ELSE R(0))
                                     ELSE LET c == corrs[k - 1] IN
                                          (R(c) \otimes Row(k - 1)[j]) \oplus (IF j = k THEN RSqrt(R(1) \ominus (R(c) \otimes c)) ELSE R(0)))
Dot(a, b) == RSum(SeqGen(NLayers, LAMBDA j : a[j] \otimes b[j]))
RECURSIVE Prod(_, _)
Prod(a, b) == IF a = b THEN R(1) ELSE R(corrs[a]) \otimes Prod(a + 1, b)
\* unit variances, and the correlation of any two layers is the product of those between
ChainCorrelation == chain # <<>> => LET k == Len(chain) IN
                    /\ RClose(Dot(Row(k), Row(k)), 1, "1e-12", "1e-12")
                    /\ \A a \in 1..k : RClose(Dot(Row(a), Row(k)), Prod(a, k), "1e-12", "1e-12")

\* the observer of the trace specification recovers the variates from the curves
Recovered == i > 0 =>
    LET g == Gs(soil.z1)
        d == Ds(soil.z2) IN
    /\ \A k \in 1..4 : UsableG(Seeds.g[k], g[k], LimG) => RClose(SolveG(Model, Seeds.g[k], g[k]), soil.z1, "1e-6", "1e-6")
    /\ \A k \in 1..4 : UsableD(Seeds.d[k], d[k], LimD) => RClose(SolveD(Model, Seeds.d[k], d[k]), soil.z2, "1e-6", "1e-6")
    /\ \E k \in 1..4 : UsableG(Seeds.g[k], g[k], LimG)
Bounded == i > 0 => /\ \A k \in 1..4 : Between("0.05", Gs(soil.z1)[k], 1) /\ Between(0, Ds(soil.z2)[k], "0.15")
                    /\ Between(RNeg(Limit), soil.z1, Limit) /\ Between(RNeg(Limit), soil.z2, Limit)
\* fixed percentiles: the same percentile, the same curves, each equally often
Cycles == (mode = "fixed_percentiles" /\ ~refused) =>
    /\ \A a, b \in 1..Len(done) : a % Len(pct) = b % Len(pct) => done[a] = done[b]
    /\ i = count => \A k \in 1..Len(pct) : Cardinality({a \in 1..count : (a - 1) % Len(pct) = k - 1}) = count \div Len(pct)
AtItsPercentile == (mode = "fixed_percentiles" /\ i > 0) => RClose(PhiTrunc(soil.z1), pct[((i - 1) % Len(pct)) + 1], "1e-9", "1e-9")
MedianIsMean == (mode = "fixed_percentiles" /\ i > 0 /\ pct[((i - 1) % Len(pct)) + 1] = "0.5") =>
    \A k \in 1..4 : RClose(Gs(soil.z1)[k], Seeds.g[k], "1e-9", "1e-9") /\ RClose(Ds(soil.z2)[k], Seeds.d[k], "1e-9", "1e-9")
\* the quoted scale for two standard deviations
ScaleValue == RClose(Scale, "1.136847", "1e-6", "1e-6")
=============================================================================
