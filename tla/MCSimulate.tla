----------------------------- MODULE MCSimulate -----------------------------
(* Every simulation of one or two profiles from every small seed, built from *)
(* the separate steps (copy, relayer, vary velocities, vary soil types) on a  *)
(* heap of layer and soil-type objects.                                       *)
EXTENDS Simulate
CONSTANTS Thicks, Vels, MaxLayers, Count
VARIABLES heap, sts, seed, seed0, cfg, cur, out, stage
vars == <<heap, sts, seed, seed0, cfg, cur, out, stage>>
\* heap: layer objects [th, vel, dmin, st (index in sts)]; sts: soil types [content, name]
\* seed, cur, out[i]: sequences of heap indices

View(ids) == SeqMap(ids, LAMBDA k : [th |-> heap[k].th, vel |-> heap[k].vel, dmin |-> heap[k].dmin, st |-> heap[k].st,
                                     stc |-> sts[heap[k].st].content, stn |-> sts[heap[k].st].name])

Init == \E n \in 2..MaxLayers : \E th \in [1..n -> Thicks], s \in [1..n -> 1..2], v \in Vels :
        /\ heap = [i \in 1..n |-> [th |-> IF i = n THEN 0 ELSE th[i], vel |-> v + i, dmin |-> i, st |-> s[i]]]
        /\ sts = <<[content |-> "a0", name |-> "a"], [content |-> "b0", name |-> "b"]>>
        /\ seed = [i \in 1..n |-> i]
        /\ seed0 = heap
        /\ cfg \in [thick : BOOLEAN, vel : BOOLEAN, st : BOOLEAN, rockvel : BOOLEAN, rockst : BOOLEAN]
        /\ cur = <<>> /\ out = <<>> /\ stage = "idle"

Fresh(k) == [i \in 1..k |-> Len(heap) + i]

Copy == /\ stage = "idle" /\ Len(out) < Count
        /\ heap' = heap \o [i \in 1..Len(seed) |-> heap[seed[i]]]
        /\ cur' = Fresh(Len(seed))
        /\ stage' = "copied"
        /\ UNCHANGED <<sts, seed, seed0, cfg, out>>

\* all ways to cut a whole number in positive parts
RECURSIVE Cuts(_)
Cuts(d) == IF d = 0 THEN {<<>>} ELSE UNION {{<<p>> \o c : c \in Cuts(d - p)} : p \in 1..d}
RECURSIVE Depth(_, _)
Depth(p, i) == IF i = 0 THEN 0 ELSE heap[p[i]].th + Depth(p, i - 1)
RECURSIVE SumN(_, _)
SumN(c, i) == IF i = 0 THEN 0 ELSE c[i] + SumN(c, i - 1)
\* the layer of p at twice the depth d2
Holder(p, d2) == CHOOSE i \in 1..(Len(p) - 1) : 2 * Depth(p, i - 1) < d2 /\ d2 <= 2 * Depth(p, i)

Relayer == /\ stage = "copied"
           /\ IF ~cfg.thick THEN UNCHANGED <<heap, cur>>
              ELSE \E c \in Cuts(Depth(cur, Len(cur) - 1)) :
                   LET m == Len(c)
                       lay(i) == [heap[cur[Holder(cur, SumN(c, i - 1) + SumN(c, i))]] EXCEPT !.th = c[i]] IN
                   /\ heap' = heap \o [i \in 1..m |-> lay(i)] \o <<heap[cur[Len(cur)]]>>
                   /\ cur' = Fresh(m + 1)
           /\ stage' = "layered"
           /\ UNCHANGED <<sts, seed, seed0, cfg, out>>

VaryVel == /\ stage = "layered"
           /\ IF ~cfg.vel THEN UNCHANGED <<heap, cur>>
              ELSE LET n == Len(cur) IN
                   \E v \in [1..n -> Vels] :
                   /\ heap' = heap \o [i \in 1..n |-> IF i = n /\ ~cfg.rockvel THEN heap[cur[i]] ELSE [heap[cur[i]] EXCEPT !.vel = 10 * v[i]]]
                   /\ cur' = Fresh(n)
           /\ stage' = "vel"
           /\ UNCHANGED <<sts, seed, seed0, cfg, out>>

VarySt == /\ stage = "vel"
          /\ IF ~cfg.st THEN UNCHANGED <<heap, cur, sts>>
             ELSE LET n == Len(cur) IN
                  \* one realisation of each soil type (the heap of types has two per profile)
                  /\ sts' = sts \o <<[content |-> "a1", name |-> "a"], [content |-> "b1", name |-> "b"]>>
                  /\ heap' = heap \o [i \in 1..n |-> IF i = n /\ ~cfg.rockst THEN heap[cur[i]]
                                                    ELSE [heap[cur[i]] EXCEPT !.st = Len(sts) + heap[cur[i]].st]]
                  /\ cur' = Fresh(n)
          /\ stage' = "done"
          /\ UNCHANGED <<seed, seed0, cfg, out>>

Yield == /\ stage = "done" /\ out' = Append(out, cur) /\ cur' = <<>> /\ stage' = "idle"
         /\ UNCHANGED <<heap, sts, seed, seed0, cfg>>
Next == Copy \/ Relayer \/ VaryVel \/ VarySt \/ Yield
Spec == Init /\ [][Next]_vars

Range(s) == {s[i] : i \in 1..Len(s)}
SeedUntouched == /\ SubSeq(heap, 1, Len(seed)) = seed0
                 /\ SubSeq(sts, 1, 2) = <<[content |-> "a0", name |-> "a"], [content |-> "b0", name |-> "b"]>>
NoSharing == /\ \A i \in 1..Len(out) : Range(out[i]) \cap Range(seed) = {}
             /\ \A i, j \in 1..Len(out) : i # j => Range(out[i]) \cap Range(out[j]) = {}
\* every produced profile is judged as the traces of the code are
Structure == stage = "idle" => \A i \in 1..Len(out) :
    LET s == View(seed)  r == View(out[i]) IN
    /\ HalfSpaceKept(s, r, cfg)
    /\ PositiveLayers(r)
    /\ DepthKept(s, r)
    /\ IF cfg.thick THEN Relayered(s, r, cfg) ELSE LayersKept(s, r, cfg)
    /\ cfg.st => OnePerSoilType(s, r, cfg)
CountOK == Len(out) <= Count
=============================================================================
