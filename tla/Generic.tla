------------------------------ MODULE Generic ------------------------------
(***************************************************************************)
(* Tabulated crustal profiles: rows [z, v, w] (depth of the top, velocity,   *)
(* unit weight) in order of depth, the last one the half-space; merging of   *)
(* rows of similar velocity; mean effective stress; and the regional          *)
(* velocity model of Kamai et al. (2016).                                     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Thick(rows) == SeqGen(Len(rows), LAMBDA i : IF i = Len(rows) THEN R(0) ELSE R(rows[i+1].z) \ominus rows[i].z)
Sum(i, j, Op(_)) == RSum(SeqGen(j - i + 1, LAMBDA k : Op(i + k - 1)))
TravelTime(rows, n) == LET t == Thick(rows) IN Sum(1, n, LAMBDA i : t[i] \oslash rows[i].v)
Weight(rows, n)     == LET t == Thick(rows) IN Sum(1, n, LAMBDA i : t[i] \otimes rows[i].w)

\* row i can be in the group that begins with row a
Deviation(rows, a, i) == RAbs(R(rows[i].v) \ominus rows[a].v) \oslash rows[a].v
Similar(rows, a, i, tol) == RLe(Deviation(rows, a, i), tol)
\* the row that stands for the group a..b
Merged(rows, a, b) ==
    LET t == Thick(rows)
        h == Sum(a, b, LAMBDA i : t[i])
    IN IF RLt(0, h)
       THEN [z |-> R(rows[a].z), v |-> h \oslash Sum(a, b, LAMBDA i : t[i] \oslash rows[i].v),
             w |-> Sum(a, b, LAMBDA i : t[i] \otimes rows[i].w) \oslash h]
       ELSE [z |-> R(rows[a].z), v |-> R(rows[a].v), w |-> R(rows[a].w)]
\* firsts: indices of the first rows of all groups
Last(firsts, k, n) == IF k = Len(firsts) THEN n ELSE firsts[k+1] - 1
MergeAll(rows, firsts) == SeqGen(Len(firsts), LAMBDA k : Merged(rows, firsts[k], Last(firsts, k, Len(rows))))

\* ---------------------------------------------------- mean effective stress
WaterWeight == R("9.81")
Overburden(rows, i) == LET t == Thick(rows) IN (IF i = 1 THEN R(0) ELSE Weight(rows, i - 1)) \oplus ((t[i] \oslash 2) \otimes rows[i].w)
MidDepth(rows, i) == LET t == Thick(rows) IN R(rows[i].z) \oplus (t[i] \oslash 2)
Pore(rows, i, wt) == RMax(0, WaterWeight \otimes (MidDepth(rows, i) \ominus wt))
MeanStress(rows, i, wt, k0) ==
    (Overburden(rows, i) \ominus Pore(rows, i, wt)) \otimes ((R(1) \oplus (R(2) \otimes k0)) \oslash 3)
MeanStresses(rows, wt, k0) == SeqGen(Len(rows), LAMBDA i : MeanStress(rows, i, wt, k0))

\* --------------------------------------------------------- regional profile
Kamai == [california |-> [b |-> <<R("0.25"), R(104), R("0.22"), R(166), R(53), R("-0.00388"), R("0.0002"), R("0.195")>>],
          japan      |-> [b |-> <<R("0.2"), R(40), R("0.25"), R(260), R(28), R("-0.00296"), R(0), R("0.4")>>]]
Regions == DOMAIN Kamai
KamaiMedian(region, vs30, z) ==
    LET b  == Kamai[region].b
        a0 == (b[1] \otimes vs30) \oplus b[2]
        a1 == (b[3] \otimes vs30) \oplus b[4]
        a2 == b[5] \otimes RExp(b[6] \otimes vs30)
    IN a0 \oplus (a1 \otimes RLn((R(z) \oplus a2) \oslash a2))
KamaiSd(region, vs30) == LET b == Kamai[region].b IN (b[7] \otimes vs30) \oplus b[8]
=============================================================================
