----------------------------- MODULE FilesTrace -----------------------------
(* Files read by the implementation: the specification reads the same lines. *)
EXTENDS Files, TraceBase
VARIABLE l

Text(cs) == FoldN(Len(cs), "", LAMBDA a, i : a \o cs[i])
Number(cs) == R(Text(SelectSeq(cs, LAMBDA ch : ch \notin Blank)))
Values(e) == SeqMap(IF e.ev = "smc" THEN Fixed(e.lines, Len(e.values), 10, <<>>) ELSE Free(e.lines), Number)

Record(e) ==
    LET vs == Values(e) IN
    Chk("FileAsWritten", Len(vs) = Len(e.values) /\ AllN(Len(vs), LAMBDA i : REq(vs[i], e.values[i])))
    \cup Chk("EveryValue", Len(e.got.accels) = Len(vs) /\ e.got.npts = Len(vs))
    \cup Chk2(Len(e.got.accels) = Len(vs), "InOrderAndScaled", AllN(Len(vs), LAMBDA i : RClose(e.got.accels[i], vs[i] \otimes e.scale, "1e-12", "1e-300")))
    \cup Chk("TimeStep", RClose(e.got.dt, e.dt, "1e-12", 0))
    \cup Chk("Description", e.got.desc = e.desc)

NumS(s) == SeqMap(s, LAMBDA x : R(x))
Model(e) ==
    LET body == SubSeq(Uncomment(e.lines, "!"), 5, Len(Uncomment(e.lines, "!")))
        rows == SeqMap(Rows(body, 5), LAMBDA w : SeqMap(SubSeq(w, 1, 5), Number))
        n == Len(rows)
        la(i) == IF i <= n THEN rows[i] ELSE <<R(0), R(0), R(e.hs[1]), R(e.hs[2]), R(0)>> IN
    Chk("FileAsWritten", n = Len(e.rows) /\ \A i \in 1..n : NearS(rows[i], e.rows[i]))
    \cup Chk("Layers", Len(e.got.rows) = n /\ \A i \in 1..Len(e.got.rows) : NearS(e.got.rows[i], rows[i]))
    \cup Chk("HalfSpace", NearS(e.got.hs, e.hs))
    \cup Chk("Source", NearS(e.got.last, e.last))
    \cup Chk("Frequencies", NearS(e.got.freq, e.freq) /\ NearS(e.got.out, e.out))
    \cup (IF Len(e.prof) # n + 1 THEN {"ProfileLayers"}
          ELSE UNION {Chk("ProfileGeometry", Near(e.prof[i].th, Metres(la(i)[2])) /\ Near(e.prof[i].top, Metres(RSum(SeqGen(i - 1, LAMBDA k : la(k)[2])))))
                      \cup Chk("ProfileVelocity", Near(e.prof[i].vel, Metres(la(i)[3])))
                      \cup Chk("ProfileUnitWeight", Near(e.prof[i].uw, Gravity \otimes la(i)[4]))
                      \cup Chk("ProfileDamping", Near(e.prof[i].d, QDamping(la(i)[5])) /\ Near(e.prof[i].dmin, QDamping(la(i)[5]))) : i \in 1..(n + 1)})

Failing(e) ==
    CASE e.ev = "notsmc" -> Chk("OtherRecordsRefused", e.raised # "")
      [] e.ev = "crash" \/ e.raised # "" -> {"CallRaised"}
      [] e.ev = "ctl" -> Model(e)
      [] OTHER -> Record(e)

Init == l = 1
Next == /\ l <= Len(Trace) /\ Report(l, Failing(Trace[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
