-------------------------------- MODULE MCRvt --------------------------------
(* Every small motion, and every order of reading its peaks: kept values are *)
(* those of the definitions, and the definitions are consistent.             *)
EXTENDS Rvt, Signal
CONSTANTS Amps, Durs, Gains, MaxReads
VARIABLES m, pga, pgv, reads
vars == <<m, pga, pgv, reads>>
Fs == <<R("0.1"), R("0.5"), R(2), R(8)>>
Init == /\ \E a \in [1..4 -> Amps], d \in Durs : m = [f |-> Fs, S |-> [j \in 1..4 |-> R(a[j])], dur |-> R(d)]
        /\ pga = <<>> /\ pgv = <<>> /\ reads = <<>>
W == SeqMap(Fs, LAMBDA x : Omega(x))
Pga == RvtPeak(m, AllPass(m))
Pgv == RvtPeak(m, VelTF(W))
Gain(k) == SeqGen(4, LAMBDA j : <<R(k), R(0)>>)
Turn(k) == SeqGen(4, LAMBDA j : CMul(<<RCos(j), RSin(j)>>, <<R(k), R(0)>>))
ReadPga == pga' = (IF pga = <<>> THEN Pga ELSE pga) /\ reads' = Append(reads, <<"pga", pga'>>) /\ UNCHANGED <<m, pgv>>
ReadPgv == pgv' = (IF pgv = <<>> THEN Pgv ELSE pgv) /\ reads' = Append(reads, <<"pgv", pgv'>>) /\ UNCHANGED <<m, pga>>
Through1 == \E k \in Gains : reads' = Append(reads, <<"gain", R(k), RvtPeak(m, Gain(k))>>) /\ UNCHANGED <<m, pga, pgv>>
Next == Len(reads) < MaxReads /\ (ReadPga \/ ReadPgv \/ Through1)
Spec == Init /\ [][Next]_vars
Near(a, b) == RClose(a, b, "1e-9", 0)
Reads == \A i \in 1..Len(reads) :
    CASE reads[i][1] = "pga" -> Near(reads[i][2], Pga)
      [] reads[i][1] = "pgv" -> Near(reads[i][2], Pgv)
      [] OTHER -> Near(reads[i][3], reads[i][2] \otimes Pga)
\* phases do not matter, amplitudes scale
Homogeneous == \A k \in Gains : /\ Near(RvtPeak(m, Turn(k)), RvtPeak(m, Gain(k)))
                                /\ Near(RvtPeak([m EXCEPT !.S = SeqMap(m.S, LAMBDA v : R(k) \otimes v)], AllPass(m)), R(k) \otimes Pga)
\* a stiff oscillator follows the ground
Stiff == RClose(RvtPeak(m, SdofTF(Fs, "5000", "0.05")), Pga, "1e-4", 0)
AboveRms == RLt(RSqrt(Moment(m.f, m.S, 0) \oslash m.dur), Pga)
=============================================================================
