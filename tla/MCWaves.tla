------------------------------ MODULE MCWaves ------------------------------
(* Every column of up to MaxLayers layers over a small set of materials and *)
(* thicknesses: the recursion meets the boundary conditions and the          *)
(* properties of transfer functions.                                         *)
EXTENDS Waves, TLC, FiniteSets
CONSTANTS MaxLayers
VARIABLES mats
Ws == <<"0", "2", "31.4", "150">>
Material(m) == CASE m = 1 -> [rho |-> "1.8", G |-> <<"40000">>, D |-> <<"0.03">>]
                 [] m = 2 -> [rho |-> "2.2", G |-> <<"900000">>, D |-> <<"0.005">>]
                 [] m = 3 -> [rho |-> "1.6", G |-> <<"16000">>, D |-> <<"0.6">>]
                 [] m = 4 -> [rho |-> "2.0", G |-> <<"80000">>, D |-> <<"0">>]
                 [] m = 5 -> [rho |-> "2.0", G |-> <<"60000", "50000", "45000", "70000">>, D |-> <<"0.02", "0.05", "0.04", "0.01">>]
La(m) == [rho |-> Material(m[1]).rho, G |-> Material(m[1]).G, D |-> Material(m[1]).D, th |-> m[2]]
Init == \E m \in 1..5 : mats = <<<<m, "0">>>>
\* add a layer at the surface
Next == Len(mats) < MaxLayers /\ \E m \in 1..5, h \in {"1.5", "12"} : mats' = <<<<m, h>>>> \o mats
Spec == Init /\ [][Next]_mats

C == Column([i \in 1..Len(mats) |-> La(mats[i])], Ws)
N == Len(mats)
J == 1..Len(Ws)
P(i, z, f) == [i |-> i, z |-> z, f |-> f]
Places(c) == {P(i, z, f) : i \in 1..N, z \in {"0", "1.5"}, f \in {"outcrop", "within", "incoming_only"}}
Surface == P(1, "0", "within")
Bottom == P(N, "0", "outcrop")
Cl(x, y) == CClose(x, y, "1e-8", "1e-12")

Boundary == LET c == C IN \A j \in J : j > 1 =>
    /\ FreeSurface(c.AB[j][1])
    /\ \A i \in 1..N - 1 : Continuous(c.AB[j][i], c.K[i][j], c.M[i][j], c.ls[i].th, c.AB[j][i+1], c.K[i+1][j], c.M[i+1][j])
ModulusKeepsMagnitude == LET c == C IN \A i \in 1..N, j \in J : RClose(CAbs(c.M[i][j]), V1(c.ls[i].G, j), "1e-12", 0)
TransferFunctions == LET c == C IN \A j \in J :
    LET a == Bottom b == Surface m == P(1, "1.5", "within") IN
    /\ Cl(CMul(AccelTF(c, a, b, j), AccelTF(c, b, m, j)), AccelTF(c, a, m, j))
    /\ Cl(CMul(AccelTF(c, a, b, j), AccelTF(c, b, a, j)), One)
    /\ Cl(AccelTF(c, P(1, "0", "outcrop"), P(1, "0", "within"), j), One)
    /\ (j = 1 => Cl(AccelTF(c, P(N, "0", "within"), b, j), One))
    /\ Cl(StrainTF(c, a, P(1, "0", "within"), j), Zero)
\* strain is the slope of the displacement
Slope == LET c == C h == R("1e-4") IN \A j \in J : j > 1 =>
    LET z == R("0.7")
        u1 == Field(c, P(1, z \ominus h, "within"), j)
        u2 == Field(c, P(1, z \oplus h, "within"), j)
        s == CScale(R(1) \oslash (R(2) \otimes h), CSub(u2, u1))
        acc == CScale(RNeg(R(Ws[j]) \otimes Ws[j]), Field(c, Bottom, j))
    IN CClose(CScale(G_ACC, CDiv(s, acc)), StrainTF(c, Bottom, P(1, z, "within"), j), "1e-5", "1e-9")
\* cutting the top layer in two changes nothing
Half(la) == [la EXCEPT !.th = R(la.th) \oslash 2]
Split == LET c == C d == Column(<<Half(c.ls[1])>> \o <<Half(c.ls[1])>> \o Tail(c.ls), Ws) IN
    N > 1 => \A j \in J :
    /\ Cl(AccelTF(c, Bottom, Surface, j), AccelTF(d, P(N + 1, "0", "outcrop"), Surface, j))
    /\ Cl(StrainTF(c, Bottom, P(1, Half(c.ls[1]).th, "within"), j),
          StrainTF(d, P(N + 1, "0", "outcrop"), P(2, "0", "within"), j))
\* no contrast: the surface moves as the outcropping half-space, damped and delayed
Uniform == LET c == C IN (\A i \in 1..N : mats[i][1] = mats[1][1]) => \A j \in J : j > 1 =>
    LET H == RSum(SeqGen(N - 1, LAMBDA i : c.ls[i].th)) IN
    Cl(AccelTF(c, Bottom, Surface, j), CDiv(One, Phase(c.K[1][j], H)))
=============================================================================
