------------------------------ MODULE Simulate ------------------------------
(***************************************************************************)
(* Simulated profiles.  A profile is a sequence of layers, the last one the *)
(* half-space; a layer is a record with thickness th, velocity vel, minimum *)
(* damping dmin, the identity st of its soil type and its content stc (and  *)
(* stn, what of the content a soil-type variation keeps).                   *)
(*                                                                         *)
(* A configuration [thick, vel, st, rockvel, rockst] says what is varied.   *)
(* The operators state what a simulated profile takes from its seed; the    *)
(* model MCSimulate generates every simulation over small profiles from     *)
(* the separate variation steps and checks them against these operators.    *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

TopOf(ls, i) == RSum(SeqGen(i - 1, LAMBDA j : ls[j].th))
BaseOf(ls, i) == TopOf(ls, i) \oplus ls[i].th
MidOf(ls, i) == TopOf(ls, i) \oplus (ls[i].th \otimes "0.5")
Same(a, b) == RClose(a, b, "1e-9", "1e-12")

\* layers of the seed that a depth may belong to (two at an interface)
At(seed, d) == {i \in 1..(Len(seed) - 1) :
                  /\ RLt(TopOf(seed, i), d \oplus (d \otimes "1e-9"))
                  /\ RLe(d, BaseOf(seed, i) \oplus (d \otimes "1e-9"))}

SoilKept(a, b, varied) == IF varied THEN a.stn = b.stn ELSE a.stc = b.stc

\* layer a of a simulated profile takes the material of the seed's layer b
Material(a, b, velvaried, stvaried) ==
    /\ SoilKept(a, b, stvaried)
    /\ (velvaried \/ Same(a.vel, b.vel))
    /\ Same(a.dmin, b.dmin)

HalfSpaceKept(seed, res, cfg) ==
    LET a == res[Len(res)]
        b == seed[Len(seed)] IN
    Material(a, b, cfg.vel /\ cfg.rockvel, cfg.st /\ cfg.rockst)

LayersKept(seed, res, cfg) ==       \* thicknesses not varied: layer by layer
    /\ Len(res) = Len(seed)
    /\ \A i \in 1..(Len(seed) - 1) : Same(res[i].th, seed[i].th) /\ Material(res[i], seed[i], cfg.vel, cfg.st)

PositiveLayers(res) == \A i \in 1..(Len(res) - 1) : RLt(0, res[i].th)
DepthKept(seed, res) == RClose(TopOf(res, Len(res)), TopOf(seed, Len(seed)), "1e-9", "1e-9")
Relayered(seed, res, cfg) ==        \* each layer is like the seed at its middle
    \A i \in 1..(Len(res) - 1) :
        \E k \in At(seed, MidOf(res, i)) : Material(res[i], seed[k], cfg.vel, cfg.st)

\* one varied soil type per soil type of the seed, and none of the seed's own
OnePerSoilType(seed, res, cfg) ==
    LET n == Len(res) - (IF cfg.rockst THEN 0 ELSE 1)
        from(i) == IF i = Len(res) THEN {Len(seed)} ELSE IF cfg.thick THEN At(seed, MidOf(res, i)) ELSE {i}
        seeds == {seed[k].st : k \in 1..Len(seed)} IN
    /\ \A i \in 1..n : res[i].st \notin seeds
    /\ \A i, j \in 1..n : Cardinality(from(i)) = 1 /\ Cardinality(from(j)) = 1 =>
         LET a == CHOOSE k \in from(i) : TRUE
             b == CHOOSE k \in from(j) : TRUE IN
         (seed[a].st = seed[b].st) <=> (res[i].st = res[j].st)

\* half-space moved to depth d: the layers above it are the seed's, the last one cut or continued
HalfSpaceAt(seed, res, d) ==
    LET n == Len(seed)
        total == TopOf(seed, n)
        keep == IF RLt(d, total) THEN {i \in 1..(n - 1) : RLe(BaseOf(seed, i), d)} ELSE 1..(n - 2)
        m == Cardinality(keep)
        last == IF RLt(d, total) THEN {i \in 1..(n - 1) : RLe(TopOf(seed, i), d) /\ RLe(d, BaseOf(seed, i) \oplus "1e-6")} ELSE {n - 1} IN
    /\ RClose(TopOf(res, Len(res)), d, "1e-6", "1e-6")
    /\ Len(res) >= m + 1
    /\ \A i \in 1..m : Same(res[i].th, seed[i].th) /\ Material(res[i], seed[i], FALSE, FALSE)
    /\ \A i \in (m + 1)..(Len(res) - 1) : \E k \in last : Material(res[i], seed[k], FALSE, FALSE)
    /\ Material(res[Len(res)], seed[n], FALSE, FALSE)
=============================================================================
