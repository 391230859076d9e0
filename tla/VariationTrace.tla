--------------------------- MODULE VariationTrace ---------------------------
(* Samples of the implementation judged by the operators of Variation.       *)
EXTENDS Variation, TraceBase
VARIABLE l

Half(a, b) == (R(a) \oplus b) \otimes "0.5"
Mids(seed) == SeqGen(Len(seed), LAMBDA i : RSum(SeqGen(i - 1, LAMBDA j : seed[j].th)) \oplus (seed[i].th \otimes "0.5"))

\* ------------------------------------------------------------- velocities
Velocities(e) ==
    LET n == Len(e.seed)
        k == IF e.rock THEN n ELSE n - 1
        mids == Mids(e.seed)
        sd == SeqGen(n, LAMBDA i : LnStd(e.m, e.seed[i], mids[i]))
        rho == Rhos(e.m, mids)
        m == Len(e.draws[1])
        z == SeqGen(k, LAMBDA i : SeqMap(e.draws[i], LAMBDA v : RLn(R(v) \oslash e.seed[i].vel) \oslash sd[i]))
        bound == (Limit \otimes Scale) \otimes "1.000001"
        s(i) == RSqrt(VarS(z[i]))
        slack == R(4) \oslash RootN(2 * m) IN
    Chk("Bounded", \A i \in 1..k : AllN(m, LAMBDA j : Between(RNeg(bound), z[i][j], bound)))
    \cup Chk("HalfSpaceFixed", e.rock \/ AllN(m, LAMBDA j : Near(e.draws[n][j], e.seed[n].vel)))
    \cup Chk("Median", \A i \in 1..k : RLt(RAbs(MeanS(z[i])), R(5) \oslash RootN(m)))
    \cup Chk("StandardDeviation", \A i \in 1..k : Between(R("0.97") \ominus slack, s(i), R("1.12") \oplus slack)
                                                 /\ RLt("2.1", FoldN(m, R(0), LAMBDA a, j : RMax(a, RAbs(z[i][j])))))
    \cup Chk("NeighbourCorrelation", \A i \in 1..(k - 1) :
             RLt(RAbs(CorrS(z[i], z[i + 1]) \ominus rho[i]),
                 R("0.025") \oplus ((R(5) \otimes (R("1.01") \ominus (rho[i] \otimes rho[i]))) \oslash RootN(m))))

Published(name) == CASE name = "Geomatrix AB" -> <<"0.46", "0.96", "13.1", "0.96", "0", "0.095">>
                     [] name = "Geomatrix CD" -> <<"0.38", "0.99", "8", "1", "0", "0.16">>
                     [] name = "USGS AB" -> <<"0.35", "0.95", "4.2", "1", "0", "0.138">>
                     [] name = "USGS CD" -> <<"0.36", "0.99", "3.9", "1", "0", "0.293">>
                     [] name = "USGS A" -> <<"0.36", "0.95", "3.4", "0.42", "0", "0.063">>
                     [] name = "USGS B" -> <<"0.27", "0.97", "3.8", "1", "0", "0.293">>
                     [] name = "USGS C" -> <<"0.31", "0.99", "3.9", "0.98", "0", "0.344">>
                     [] name = "USGS D" -> <<"0.37", "0", "5", "0.5", "0", "0.744">>

\* classes of the United States Geological Survey by Vs30
SiteClass(vs30) == IF RLt(vs30, 180) THEN "USGS D" ELSE IF RLt(vs30, 360) THEN "USGS C" ELSE IF RLt(vs30, 750) THEN "USGS B" ELSE "USGS A"
SiteClasses == {"Geomatrix AB", "Geomatrix CD", "USGS AB", "USGS CD", "USGS A", "USGS B", "USGS C", "USGS D"}

\* --------------------------------------------------------------- layerings
\* boundaries above a depth are Poisson distributed: mean and variance alike
Layerings(e) ==
    LET n == Len(e.got)
        ok(col, d) == LET mu == Boundaries(e.m, d)
                          xs == SeqMap(e.got, LAMBDA row : row[col])
                          se == RSqrt(mu \oslash n) IN
                      /\ RLt(RAbs(MeanS(xs) \ominus mu), (R(5) \otimes se) \oplus "1e-3")
                      /\ RLt(RAbs(VarS(xs) \ominus mu), R(6) \otimes RSqrt((mu \oplus ((R(2) \otimes mu) \otimes mu)) \oslash n) \oplus "1e-2") IN
    Chk("Stated", NearS(e.stated, <<e.m.c_1, e.m.c_2, e.m.c_3>>)) \cup Chk("LayerCount", ok(1, e.depth)) \cup Chk("LayerCountWithin", ok(2, e.part))

\* -------------------------------------------------------- random numbers
Norm(e) ==
    LET n == Len(e.many)
        t == R(5) \oslash RootN(n)
        sc == ScaleOf(e.lim)
        top == RMul(R(e.lim) \otimes sc, "1.000001")
        k == Len(e.pairs)
        tk == R(5) \oslash RootN(k)
        col(i) == SeqMap(e.pairs, LAMBDA p : p[i])
        within(s, b) == AllN(Len(s), LAMBDA i : Between(RNeg(b), s[i], b)) IN
    Chk("Stated", Near(e.stated[1], e.lim) /\ Near(e.stated[2], sc))
    \cup Chk("Truncated", within(e.many, top) /\ within(e.few, top) /\ within(col(1), R(e.lim)) /\ within(col(2), R(e.lim)))
    \cup Chk("Centred", RLt(RAbs(MeanS(e.many)), t) /\ RLt(RAbs(MeanS(e.few)), R(5) \oslash RootN(Len(e.few))))
    \cup Chk("UnitDeviation", Between(R(1) \ominus t, RSqrt(VarS(e.many)), R(1) \oplus t))
    \cup Chk("PairCentred", RLt(RAbs(MeanS(col(1))), tk) /\ RLt(RAbs(MeanS(col(2))), tk))
    \* truncation weakens the correlation
    \cup Chk("PairCorrelation", LET c == CorrS(col(1), col(2)) up == RLe(0, e.rho) r == RAbs(e.rho) s == IF up THEN c ELSE RNeg(c) IN
             RLt(RNeg(tk), s) /\ RLt(s, r \oplus tk) /\ (RLe(2, e.lim) => RLt(r \ominus ("0.15" \oplus tk), s)))
    \cup Chk("AtPercentile", \A i \in 1..Len(e.at) : LET q == e.at[i] IN
             /\ RClose(PhiTruncOf(q[2], e.lim), q[1], 0, "1e-6") \/ REq(RAbs(q[2]), e.lim)
             /\ RClose(q[3], PartnerOf(q[2], e.rho, e.lim), "1e-9", "1e-9"))

\* -------------------------------------------------------------- soil types
Spot(P(_), n) == LET ks == {i \in 1..n : P(i)} IN IF ks = {} THEN 0 ELSE CHOOSE i \in ks : TRUE
NoZ == R("nan")
Known(z) == ~RNaN(z)
Z1(m, s, o) == LET i == Spot(LAMBDA j : UsableG(s.g.y[j], o.g.y[j], m.lg), Len(s.g.y)) IN IF i = 0 THEN NoZ ELSE SolveG(m, s.g.y[i], o.g.y[i])
Z2(m, s, o) == LET i == Spot(LAMBDA j : UsableD(s.d.y[j], o.d.y[j], m.ld), Len(s.d.y)) IN IF i = 0 THEN NoZ ELSE SolveD(m, s.d.y[i], o.d.y[i])

SameShape(s, o) == /\ Len(o.g.y) = Len(s.g.y) /\ Len(o.d.y) = Len(s.d.y)
                   /\ o.g.x = s.g.x /\ o.d.x = s.d.x
InLimits(m, o) == AllN(Len(o.g.y), LAMBDA i : Between(m.lg[1], o.g.y[i], m.lg[2])) /\ AllN(Len(o.d.y), LAMBDA i : Between(m.ld[1], o.d.y[i], m.ld[2]))
\* one variate moves the whole curve
OneShift(m, s, o, z1, z2) ==
    /\ Known(z1) => AllN(Len(s.g.y), LAMBDA i : RClose(o.g.y[i], Clip(PointG(m, s.g.y[i], z1), m.lg[1], m.lg[2]), "1e-6", "1e-7"))
    /\ Known(z2) => AllN(Len(s.d.y), LAMBDA i : RClose(o.d.y[i], Clip(PointD(m, s.d.y[i], z2), m.ld[1], m.ld[2]), "1e-6", "1e-8"))
Truncated(z) == Known(z) => Between(R("-1e-6") \ominus Limit, z, Limit \oplus "1e-6")
Realisation(m, s, o) ==
    IF ~SameShape(s, o) THEN {"StrainsKept"}
    ELSE LET z1 == Z1(m, s, o)
             z2 == Z2(m, s, o) IN
         Chk("WithinLimits", InLimits(m, o)) \cup Chk("OneShift", OneShift(m, s, o, z1, z2))
         \cup Chk("Truncated", Truncated(z1) /\ Truncated(z2))

\* many realisations of one soil type: centred, with nearly unit deviation, and correlated
Sampled(m, s, draws) ==
    LET both == SelectSeq(SeqMap(draws, LAMBDA o : <<Z1(m, s, o), Z2(m, s, o)>>), LAMBDA z : Known(z[1]) /\ Known(z[2]))
        n == Len(both)
        a == SeqMap(both, LAMBDA z : z[1])
        b == SeqMap(both, LAMBDA z : z[2])
        t == R(5) \oslash RootN(n) IN
    IF n # Len(draws) THEN {}    \* some realisations are cut off altogether
    ELSE Chk("Centred", RLt(RAbs(MeanS(a)), t) /\ RLt(RAbs(MeanS(b)), t))
         \cup Chk("UnitDeviation", LET q == R("0.85") \ominus (t \otimes "0.7") IN
                  Between(q, RSqrt(VarS(a)), R("1.05") \oplus (t \otimes "0.7")) /\ Between(q, RSqrt(VarS(b)), R("1.05") \oplus (t \otimes "0.7")))
         \cup Chk("PairCorrelation", RLt(RAbs(CorrS(a, b) \ominus m.corr), R("0.13") \oplus (t \otimes (R("1.05") \ominus (m.corr \otimes m.corr)))))

UnionSeq(s, Op(_)) == UNION {Op(s[i]) : i \in 1..Len(s)}
Soil(e) == UnionSeq(e.draws, LAMBDA o : Realisation(e.m, e.seed, o))
           \cup Chk("SeedKept", e.after = e.seed)
           \cup (IF \A i \in 1..Len(e.draws) : SameShape(e.seed, e.draws[i]) THEN Sampled(e.m, e.seed, e.draws) ELSE {})

ProfileDraws(e) == UnionSeq(e.draws, LAMBDA q : IF Len(q) # Len(e.seed) THEN {"LayersKept"}
                                                ELSE UNION {Realisation(e.m, e.seed[i], q[i]) : i \in 1..Len(q)}
                                                     \cup Chk("OnePerSoilType", \A i \in 1..Len(q) : q[i] = q[e.first[i]]))

\* ------------------------------------------------------------- percentiles
AtPercentile(m, s, o, p) ==
    IF ~SameShape(s, o) THEN {"StrainsKept"}
    ELSE LET z1 == Z1(m, s, o)
             z2 == Z2(m, s, o) IN
         Chk("WithinLimits", InLimits(m, o)) \cup Chk("OneShift", OneShift(m, s, o, z1, z2))
         \cup Chk("Percentile", Known(z1) => RClose(PhiTrunc(z1), p, 0, "1e-5"))
         \cup Chk("PartnerPercentile", (Known(z1) /\ Known(z2)) => RClose(z2, Partner(z1, m.corr), "1e-4", "1e-4"))
         \cup Chk2(REq(p, "0.5"), "MedianIsMean",
                   AllN(Len(s.g.y), LAMBDA i : Near(o.g.y[i], Clip(s.g.y[i], m.lg[1], m.lg[2]))) /\ AllN(Len(s.d.y), LAMBDA i : Near(o.d.y[i], Clip(s.d.y[i], m.ld[1], m.ld[2]))))

Percentiles(e) ==
    LET n == Len(e.pct) IN
    IF e.count % n # 0 THEN Chk("CountRefused", e.raised = "ValueError" /\ e.draws = <<>>)
    ELSE Chk("CallRaised", e.raised = "" /\ e.raised2 = "")
         \cup Chk("CountKept", Len(e.draws) = e.count)
         \cup UNION {IF Len(e.draws[i]) # Len(e.seed) THEN {"LayersKept"}
                     ELSE UNION {AtPercentile(e.m, e.seed[k], e.draws[i][k], e.pct[((i - 1) % n) + 1]) : k \in 1..Len(e.seed)} : i \in 1..Len(e.draws)}
         \cup Chk("SameAgain", \A i, j \in 1..Len(e.draws) : i % n = j % n => e.draws[i] = e.draws[j])
         \cup UNION {AtPercentile(e.m, e.seed[1], e.direct[i], e.pct[i]) : i \in 1..Len(e.direct)}

Failing(e) ==
    CASE e.ev = "crash" -> {"CallRaised"}
      [] e.ev = "pct" -> Percentiles(e)
      [] e.ev = "refuse" -> Chk("Refused", e.raised \in {"ValueError", "IndexError"})
      [] e.raised # "" -> {"CallRaised"}
      [] e.ev = "vel" -> Velocities(e)
      [] e.ev = "published" -> Chk("Published", NearS(e.got, Published(e.name)))
      [] e.ev = "class" -> Chk("SiteClass", e.got = SiteClass(e.vs30))
      [] e.ev = "classes" -> Chk("SiteClasses", {e.got[i] : i \in 1..Len(e.got)} = SiteClasses /\ Len(e.got) = Cardinality(SiteClasses))
      [] e.ev = "layering" -> Layerings(e)
      [] e.ev = "norm" -> Norm(e)
      [] e.ev = "soil" -> Soil(e)
      [] e.ev = "profiles" -> ProfileDraws(e)

Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
