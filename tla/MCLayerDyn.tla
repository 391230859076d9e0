----------------------------- MODULE MCLayerDyn -----------------------------
(* All histories of a layer over a small set of strains, velocities and     *)
(* minimum dampings.                                                         *)
EXTENDS LayerDyn, TLC, FiniteSets
CONSTANTS StrainSets, Vels, Dmins, Steps
VARIABLES la, n
mrc == [x |-> <<"1e-5", "1e-3">>, y |-> <<"1", "0.2">>, lo |-> "0.001", hi |-> "1"]
ddc == [x |-> <<"1e-5", "1e-3">>, y |-> <<"0.01", "0.15">>, lo |-> "0", hi |-> "0.49"]
Soils == {[uw |-> "18", mr |-> m, dd |-> d, sdmin |-> "0.02"] : m \in {<<>>, <<mrc>>}, d \in {<<>>, <<ddc>>}}
Init == /\ \E s \in Soils, v \in Vels, d \in Dmins : la = Make(s, v, d)
        /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E es \in StrainSets : la' = SetStrain(la, es)
           \/ \E v \in Vels : la' = SetVel(la, v)
           \/ \E d \in Dmins : la' = SetDmin(la, d)
           \/ la' = Reset(la)
Spec == Init /\ [][Next]_<<la, n>>

SS == {<<"1e-6">>, <<"1e-4">>, <<"1e-2">>, <<"1e-4", "1e-2">>}
SSDeep == SS \cup {<<"1e-6", "1e-6">>, <<"1e-2", "1e-6">>}
VV == {"200", "400"}
DD == {"0", "0.01", "0.03"}
\* the properties are a function of the latest strain, velocity and minimum damping alone
HistoryFree == IF la.assigned THEN la.G = ModSeq(la, la.eps) /\ la.D = DampSeq(la, la.eps)
               ELSE la.G = <<InitialMod(la)>> /\ la.D = <<R(la.dmin)>>
Bounded == /\ \A i \in 1..Len(la.G) : RLe(la.G[i], InitialMod(la)) /\ RLt(0, la.G[i])
           /\ \A i \in 1..Len(la.D) : RLe(RSub(la.dmin, "1e-12"), la.D[i])
SmallStrain == la.assigned /\ (\A i \in 1..Len(la.eps) : RLe(la.eps[i], "1e-5")) =>
                 /\ RClose(la.G[1], InitialMod(la), "1e-12", 0) /\ RClose(la.D[1], la.dmin, "1e-9", "1e-12")
\* the error vanishes exactly when neither property changed, in either direction
ErrorZero == la.assigned => (REq(MaxError(la), 0) <=>
                (\A i \in 1..MaxLen(la.G, la.Gp) : REq(At(la.G, i), At(la.Gp, i)))
                /\ (\A i \in 1..MaxLen(la.D, la.Dp) : REq(At(la.D, i), At(la.Dp, i))))
LinearNeverMoves == ~Nonlinear(la.soil) => la.G = <<InitialMod(la)>> /\ la.D = <<R(la.dmin)>>
=============================================================================
