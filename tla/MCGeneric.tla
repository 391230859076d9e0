------------------------------ MODULE MCGeneric ------------------------------
(* Row-by-row merging of every small table.                                  *)
EXTENDS Generic, TLC
CONSTANTS Vels, Ths, Weights, N, Tols, Waters
VARIABLES rows, tol, firsts, i
vars == <<rows, tol, firsts, i>>
Layers == [v : Vels, w : Weights, th : Ths]
Table(c) == SeqGen(Len(c), LAMBDA k : [z |-> IF k = 1 THEN R(0) ELSE RSum(SeqGen(k - 1, LAMBDA m : R(c[m].th))), v |-> R(c[k].v), w |-> R(c[k].w)])
Init == /\ \E c \in UNION {[1..m -> Layers] : m \in 1..N} : rows = Table(c)
        /\ tol \in Tols /\ firsts = <<1>> /\ i = 2
Row == /\ i <= Len(rows) /\ i' = i + 1
       /\ firsts' = IF Similar(rows, firsts[Len(firsts)], i, tol) THEN firsts ELSE Append(firsts, i)
       /\ UNCHANGED <<rows, tol>>
Spec == Init /\ [][Row]_vars
Near(a, b) == RClose(a, b, "1e-10", "1e-12")
End == i > Len(rows)
New == MergeAll(rows, firsts)
K == Len(firsts)
Partition == /\ firsts[1] = 1 /\ \A k \in 2..K : firsts[k-1] < firsts[k] /\ firsts[k] < i
Tops == \A k \in 1..K : New[k].z = rows[firsts[k]].z
\* down to the top of the last group
Preserved == End /\ K > 1 => /\ Near(TravelTime(New, K - 1), TravelTime(rows, firsts[K] - 1))
                             /\ Near(Weight(New, K - 1), Weight(rows, firsts[K] - 1))
Within == \A k \in 1..K : \A m \in firsts[k]..(IF k = K THEN i - 1 ELSE firsts[k+1] - 1) :
    RLe(Deviation(rows, firsts[k], m), tol)
Maximal == \A k \in 2..K : ~RLe(Deviation(rows, firsts[k-1], firsts[k]), tol)
Averages == End => \A k \in 1..K :
    LET v == {rows[m].v : m \in firsts[k]..Last(firsts, k, Len(rows))} IN
    (\E x \in v : RLe(x, New[k].v \otimes "1.0000000001")) /\ (\E x \in v : RLe(New[k].v, x \otimes "1.0000000001"))
NothingToMerge == End /\ K = Len(rows) => \A k \in 1..K : Near(New[k].v, rows[k].v) /\ Near(New[k].w, rows[k].w)
\* stresses at the tops of the groups do not change where all of the rows are deeper than the water
Stress == \A wt \in Waters : LET s == MeanStresses(rows, wt, "0.5") IN
    /\ \A k \in 1..Len(rows) : RLe(0, s[k])
    /\ \A k \in 1..Len(rows) - 1 : RLe(s[k], s[k+1])
    /\ \A w2 \in Waters : RLe(wt, w2) => \A k \in 1..Len(rows) : RLe(s[k], MeanStress(rows, k, w2, "0.5"))
    /\ \A k \in 1..Len(rows) : RLe(MeanStress(rows, k, wt, "0.3"), s[k])
Depths == {0, 1, 5, 30, 100, 500}
Regional == i = 2 => \A g \in Regions : \A v \in {250, 400, 850} :
    /\ Near(KamaiMedian(g, v, 0), (Kamai[g].b[1] \otimes v) \oplus Kamai[g].b[2])
    /\ RLt(0, KamaiSd(g, v))
    /\ \A x, y \in Depths : x < y => RLt(KamaiMedian(g, v, x), KamaiMedian(g, v, y))
    /\ \A u \in {250, 400, 850} : u < v => \A x \in Depths : RLt(KamaiMedian(g, u, x), KamaiMedian(g, v, x))
=============================================================================
