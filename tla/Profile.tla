------------------------------ MODULE Profile ------------------------------
(***************************************************************************)
(* A soil profile: a sequence of layers over a half-space (the last layer), *)
(* and a depth to the water table.                                          *)
(*                                                                         *)
(* Each layer carries what the user gave (thickness th, unit weight uw) and *)
(* what the profile derives incrementally (depth of its top, total vertical *)
(* stress at its top).  Every edit re-derives only from the edited layer    *)
(* downwards; the invariants state that this always agrees with the         *)
(* definition over the whole column.                                        *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

VARIABLES layers, wt

NewLayer(th, uw) == [th |-> R(th), uw |-> R(uw), depth |-> R(0), sv |-> R(0)]

Base(la)    == la.depth \oplus la.th
SvBase(la)  == la.sv \oplus (la.th \otimes la.uw)

\* re-derive depth and stress of layers start..Len from the layer above
Rederive(ls, start) ==
    FoldN(Len(ls), ls, LAMBDA acc, i :
        IF i < start THEN acc
        ELSE IF i = 1 THEN [acc EXCEPT ![1] = [@ EXCEPT !.depth = R(0), !.sv = R(0)]]
        ELSE [acc EXCEPT ![i] = [@ EXCEPT !.depth = Base(acc[i - 1]), !.sv = SvBase(acc[i - 1])]])

\* ------------------------------------------------------------- operations
DoNew(ls)          == Rederive(ls, 1)
DoAppend(ls, la)   == Rederive(Append(ls, la), Len(ls) + 1)
DoInsert(ls, i, la) ==                    \* la becomes layer i (1-based)
    Rederive(SubSeq(ls, 1, i - 1) \o <<la>> \o SubSeq(ls, i, Len(ls)), i)
\* position of a list index i (from 0, negative ones from the end, clipped to the list)
InsertPos(n, i) == 1 + (IF i < 0 THEN IF n + i < 0 THEN 0 ELSE n + i ELSE IF i > n THEN n ELSE i)
DoSetThickness(ls, i, th) == Rederive([ls EXCEPT ![i] = [@ EXCEPT !.th = R(th)]], i + 1)
\* (DoSetThickness re-derives from the next layer: the layer's own top is unchanged)

\* -------------------------------------------------------------- definition
DefDepth(ls, i) == RSum(SeqGen(i - 1, LAMBDA j : ls[j].th))
DefSv(ls, i)    == RSum(SeqGen(i - 1, LAMBDA j : ls[j].th \otimes ls[j].uw))
\* g is the acceleration of gravity; water weighs g kN/m^3
PorePressure(g, w, depth) == R(g) \otimes RMax(depth \ominus w, 0)
StressVert(la, within)      == la.sv \oplus (within \otimes la.uw)
StressVertEff(la, within, g, w) ==
    StressVert(la, within) \ominus PorePressure(g, w, la.depth \oplus within)
\* mean of one vertical and two horizontal stresses at rest (k0)
MeanOf(sv, k0) == (sv \oplus ((R(2) \otimes k0) \otimes sv)) \oslash 3

GeometryOK == \A i \in 1..Len(layers) :
    /\ RClose(layers[i].depth, DefDepth(layers, i), "1e-12", 0)
    /\ RClose(layers[i].sv, DefSv(layers, i), "1e-12", 0)
Contiguous == \A i \in 1..Len(layers) - 1 :
    /\ RLe(layers[i].depth, layers[i + 1].depth)
    /\ RLe(layers[i].sv, layers[i + 1].sv)
StartsAtSurface == Len(layers) > 0 => REq(layers[1].depth, 0) /\ REq(layers[1].sv, 0)
=============================================================================
