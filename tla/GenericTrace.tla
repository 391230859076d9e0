---------------------------- MODULE GenericTrace ----------------------------
(* Tables loaded from files, stresses and regional profiles of the real code. *)
(* State: the content of the file last written, [rows, wt, bad].             *)
EXTENDS Generic, TraceBase
VARIABLES file, l
vars == <<file, l>>

Rows(t) == SeqGen(Len(t.z), LAMBDA i : [z |-> t.z[i], v |-> t.v[i], w |-> t.w[i]])
Served(t) == SeqGen(Len(t.z), LAMBDA i : [z |-> t.z[i], v |-> t.v[i], w |-> (R(t.rho[i]) \otimes "9.81") \oslash 1000])
EPS == "1e-10"
\* index of the row whose top is at depth z; 0 if there is none
At(rows, z) == LET s == {i \in 1..Len(rows) : REq(rows[i].z, z)} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Simplified(e, rows) ==
    LET new == Rows(e.t)  m == Len(new)  n == Len(rows)
        f == SeqGen(m, LAMBDA k : At(rows, new[k].z))
        ok == m >= 1 /\ f[1] = 1 /\ (\A k \in 1..m : f[k] > 0) /\ \A k \in 1..(m-1) : f[k] < f[k+1]
    IN Chk("GroupTops", ok)
       \cup IF ~ok THEN {} ELSE
            LET want == MergeAll(rows, f) IN
            Chk("Grouped", \A k \in 1..m : \A i \in f[k]..Last(f, k, n) : RLe(Deviation(rows, f[k], i), R(e.tol) \oplus EPS))
            \cup Chk("Separated", \A k \in 2..m : ~RLe(Deviation(rows, f[k-1], f[k]), R(e.tol) \ominus EPS))
            \cup Chk("Velocity", \A k \in 1..m : Near(new[k].v, want[k].v))
            \cup Chk("UnitWeight", \A k \in 1..m : Near(new[k].w, want[k].w))
            \cup Chk("TravelTime", m = 1 \/ Near(TravelTime(new, m - 1), TravelTime(rows, f[m] - 1)))
            \cup Chk("TotalWeight", m = 1 \/ Near(Weight(new, m - 1), Weight(rows, f[m] - 1)))
Loaded(e) ==
    IF file.bad # "" THEN Chk("BadFileRefused", e.raised \in {"ValueError", "JSONDecodeError"})
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE LET rows == Served(file) new == Rows(e.t) IN
         Chk("WaterTable", REq(e.wt, file.wt))
         \cup (IF e.simplify THEN Simplified(e, rows)
               ELSE Chk("Loaded", Len(new) = Len(rows) /\ \A i \in 1..Len(rows) : Near(new[i].z, rows[i].z) /\ Near(new[i].v, rows[i].v) /\ Near(new[i].w, rows[i].w)))
         \cup Chk("MeanStress", NearT(e.t.stress, MeanStresses(new, file.wt, "0.5"), "1e-9", "1e-9"))
         \cup Chk("Thickness", NearT(e.t.th, Thick(new), "1e-12", "1e-9"))
         \cup Chk("FileUnchanged", e.kept)

Extreme(w) == \E i \in 1..Len(w) : RLt(w[i], 10) \/ RLt(30, w[i])
Usual(w) == \A i \in 1..Len(w) : RLe(12, w[i]) /\ RLe(w[i], 30)

Kea(e) ==
    IF e.region \notin Regions THEN Chk("RegionRefused", e.raised \in {"ValueError", "JSONDecodeError"})
    ELSE IF e.raised # "" THEN {"CallRaised"}
    ELSE Chk("Depths", Len(e.index) = Len(e.z) /\ \A i \in 1..Len(e.z) : REq(e.index[i], e.z[i]))
         \cup Chk("Median", NearS(e.v, SeqMap(e.z, LAMBDA z : KamaiMedian(e.region, e.vs30, z))))
         \cup Chk("StandardDeviation", Len(e.sd) = Len(e.z) /\ \A i \in 1..Len(e.sd) : Near(e.sd[i], KamaiSd(e.region, e.vs30)))
         \cup Chk("WarnOutside", e.warned <=> (RLt(e.vs30, 250) \/ RLt(850, e.vs30)))

Failing(e) ==
    CASE e.ev = "load" -> Loaded(e)
      [] e.ev = "kea16" -> Kea(e)
      [] e.ev = "stress" ->
           IF e.raised # "" THEN {"CallRaised"} ELSE
           Chk("MeanStress", NearT(e.s, MeanStresses(Rows(e.t), e.wt, e.k0), "1e-9", "1e-9"))
           \cup Chk("WarnUnits", (Extreme(e.t.w) => e.warned) /\ (Usual(e.t.w) => ~e.warned))
      [] e.ev = "fetch" ->
           IF e.status \notin {"success", "sucess"} THEN Chk("FetchRefused", e.raised = "RuntimeError" /\ ~e.written)
           ELSE IF e.raised # "" THEN {"CallRaised"}
           ELSE Chk("FetchWrites", e.written /\ e.compressed = e.gz)
                \cup Chk("FetchQuery", REq(e.lat, e.asked[1]) /\ REq(e.lon, e.asked[2]) /\ REq(e.start, e.asked[3]) /\ REq(e.step, e.asked[4]) /\ REq(e.end, e.asked[5]))
      [] e.ev = "file" -> {}
      [] OTHER -> {"CallRaised"}

Init == file = <<>> /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ Report(l, Failing(e))
           /\ file' = IF e.ev = "file" \/ (e.ev = "fetch" /\ e.raised = "" ) THEN e.table ELSE file
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
