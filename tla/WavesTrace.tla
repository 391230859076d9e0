----------------------------- MODULE WavesTrace -----------------------------
(* Calculations of the implementation followed by requests for wave fields  *)
(* and transfer functions, in any order.  State: the column of the latest    *)
(* calculation, solved by the specification.                                 *)
EXTENDS Waves, TraceBase
VARIABLES c, l
vars == <<c, l>>

NextColumn(e) == IF e.ev = "calc" /\ e.raised = "" THEN Column(e.ls, e.w) ELSE c

CV(s, j) == IF Len(s) = 1 THEN s[1] ELSE s[j]

Amplif(col, a, j) == RDiv(Size(col, a, j), CAbs(Field(col, a, j)))

TFClose(got, want, size, col, a, j) ==
    ~Conditioned(col, a, j) \/
    CClose(got, want, "1e-7", RMul("1e-9", RMul(Amplif(col, a, j), RAdd(size, CAbs(want)))))

OutScale(e, j) ==
    IF e.ev = "accel" THEN RDiv(Size(c, e.b, j), CAbs(Field(c, e.a, j)))
    ELSE IF ZeroFreq(c.w[j]) THEN R(0)
    ELSE LET s == RDiv(RMul(CAbs(c.K[e.b.i][j]), RMul(G_ACC, Mag(Up(c, e.b, j), Down(c, e.b, j)))),
                       RMul(RMul(c.w[j], c.w[j]), CAbs(Field(c, e.a, j))))
         IN IF e.ev = "stress" THEN RMul(s, CAbs(c.M[e.b.i][j])) ELSE s

Want(e, j) == CASE e.ev = "accel" -> AccelTF(c, e.a, e.b, j)
                [] e.ev = "strain" -> StrainTF(c, e.a, e.b, j)
                [] e.ev = "stress" -> StressTF(c, e.a, e.b, e.damped, j)

Failing(e) ==
    IF e.raised # "" THEN {"CallRaised"}
    ELSE CASE e.ev = "calc" ->
           LET m == c' n == Len(e.ls) nw == Len(e.w)
               Ab(i, j) == <<e.up[i][j], CSub(e.within[i][j], e.up[i][j])>>
           IN Chk("ComplexModulus", \A i \in 1..n : \A j \in 1..nw : CClose(CV(e.gm[i], j), m.M[i][j], "1e-9", "0"))
              \cup Chk("ComplexVelocity", \A i \in 1..n : \A j \in 1..nw :
                     CClose(CV(e.gv[i], j), ComplexVel(m.M[i][j], m.ls[i].rho), "1e-9", "0"))
              \cup Chk("Shape", Len(e.up) = n /\ \A i \in 1..n : Len(e.up[i]) = nw /\ Len(e.within[i]) = nw)
              \cup Chk("FiniteWaves", \A i \in 1..n : \A j \in 1..nw : CFinite(e.up[i][j]) /\ CFinite(e.within[i][j]) /\ RLt(0, CAbs(e.up[i][j])))
              \cup Chk("FreeSurface", \A j \in 1..nw : FreeSurface(Ab(1, j)))
              \cup Chk("Continuity", \A j \in 1..nw : ~ZeroFreq(e.w[j]) => \A i \in 1..n - 1 :
                     Continuous(Ab(i, j), m.K[i][j], m.M[i][j], m.ls[i].th, Ab(i + 1, j), m.K[i + 1][j], m.M[i + 1][j]))
              \cup Chk("StaticLimit", \A j \in 1..nw : ZeroFreq(e.w[j]) => \A i \in 1..n :
                     CClose(e.up[i][j], e.up[1][j], "1e-9", "0") /\ CClose(e.within[i][j], e.within[1][j], "1e-9", "0"))
         [] e.ev = "field" ->     \* relative to the up-going wave at the surface
              Chk("WaveField", \A j \in 1..Len(c.w) : CClose(CDiv(e.v[j], e.ref[j]), Field(c, e.p, j), "1e-8",
                     RMul("1e-9", Size(c, e.p, j))))
         [] e.ev \in {"accel", "strain", "stress"} ->
              Chk("Length", Len(e.v) = Len(c.w))
              \cup Chk2(Len(e.v) = Len(c.w),
                        CASE e.ev = "accel" -> "AccelTransfer" [] e.ev = "strain" -> "StrainTransfer" [] OTHER -> "StressTransfer",
                        \A j \in 1..Len(c.w) : TFClose(e.v[j], Want(e, j), OutScale(e, j), c, e.a, j))
              \cup Chk2(e.ev = "strain", "StaticStrain", \A j \in 1..Len(c.w) : ZeroFreq(c.w[j]) => CClose(e.v[j], Zero, "0", "0"))
         [] e.ev = "same" ->      \* two transfer functions that must agree (a: the input of the first)
              Chk(e.what, Len(e.v) = Len(e.u) /\ \A j \in 1..Len(e.v) :
                     ~Conditioned(c, e.a, j) \/ CClose(e.v[j], e.u[j], "1e-7", RMul("1e-8", RMul(Amplif(c, e.a, j), e.scale))))

Init == c = [ls |-> <<>>, w |-> <<>>, K |-> <<>>, M |-> <<>>, AB |-> <<>>] /\ l = 1
Next == /\ l <= Len(Trace)
        /\ c' = NextColumn(Trace[l])
        /\ Report(l, Failing(Trace[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
