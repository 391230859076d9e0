------------------------------ MODULE Session ------------------------------
(* Objects shared by many calculations: motions, profiles (what was given,   *)
(* and iterated properties left by the last calculation), calculators (with   *)
(* a smoother kept between calls).  Results are symbolic: the inputs a        *)
(* calculation has actually used.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Motions, Profiles, Calcs, Edits, Depth
VARIABLES given, iter, smoother, motion, last, n
vars == <<given, iter, smoother, motion, last, n>>
Grid(m) == IF m = 1 THEN "short" ELSE "long"        \* the frequencies of a motion
Kind(c) == IF c = 1 THEN "linear" ELSE IF c = 2 THEN "equivalent" ELSE "smoothed"
Small(g) == <<"small", g>>                            \* small-strain properties of what was given

Init == /\ given = [p \in Profiles |-> 0] /\ iter = [p \in Profiles |-> Small(0)]
        /\ smoother = [c \in Calcs |-> "none"] /\ motion = [m \in Motions |-> 0]
        /\ last = <<>> /\ n = 0
\* what a calculation computes from the properties it starts with, the motion and the smoother it uses
Compute(c, m, start, sm) == <<Kind(c), m, motion[m], start, sm>>
Used(c, m) == IF Kind(c) # "smoothed" THEN "none" ELSE IF smoother[c] = Grid(m) THEN smoother[c] ELSE Grid(m)
Run(c, m, p, reset) ==
    LET start == IF reset THEN Small(given[p]) ELSE iter[p]
        sm == Used(c, m)
        res == Compute(c, m, start, sm)
    IN /\ last' = [res |-> res, c |-> c, m |-> m, p |-> p, reset |-> reset]
       /\ iter' = [iter EXCEPT ![p] = IF Kind(c) = "linear" THEN start ELSE res]
       /\ smoother' = [smoother EXCEPT ![c] = sm]
       /\ UNCHANGED <<given, motion>>
Edit(p) == /\ given[p] < Edits
           /\ given' = [given EXCEPT ![p] = @ + 1]
           /\ iter' = [iter EXCEPT ![p] = Small(given[p] + 1)]      \* editing resets the layers
           /\ last' = <<>> /\ UNCHANGED <<smoother, motion>>
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E c \in Calcs, m \in Motions, p \in Profiles, r \in BOOLEAN : (r \/ Kind(c) = "linear") /\ Run(c, m, p, r)
           \/ \E p \in Profiles : Edit(p)
Spec == Init /\ [][Next]_vars

Fresh(c, m, g) == <<Kind(c), m, 0, Small(g), IF Kind(c) = "smoothed" THEN Grid(m) ELSE "none">>
OnlyInputs == last # <<>> /\ last.reset => last.res = Fresh(last.c, last.m, given[last.p])
Untouched == motion = [m \in Motions |-> 0]
=============================================================================
