------------------------------- MODULE Waves -------------------------------
(* Vertically propagating shear waves in a layered damped column over a     *)
(* half-space: displacement A exp(ikz) + B exp(-ikz) in each layer, z down   *)
(* from its top, normalised to A = B = 1 at the ground surface.              *)
(* A layer is [rho, G, D, th]; G and D are sequences: one value, or one per  *)
(* frequency.  A column is [ls, w, K, M, AB]: layers, angular frequencies,    *)
(* wave numbers K[i][j], complex moduli M[i][j], amplitudes AB[j][i].         *)
EXTENDS Num, Integers, Sequences

G_ACC == R("9.80665")
V1(s, j) == IF Len(s) = 1 THEN s[1] ELSE s[j]
I1 == Cx(R(0), R(1))
One == Cx(R(1), R(0))
Zero == Cx(R(0), R(0))
CNeg(z) == CScale(R(-1), z)

\* Dormieux and Canou: |M| = G, Im M = 2 D G, damping limited to 0.49
DampLim(d) == RMin(RMax(d, 0), "0.49")
ComplexMod(g, d0) == LET d == DampLim(d0) IN
    CScale(g, Cx(RSqrt(R(1) \ominus (R(4) \otimes (d \otimes d))), R(2) \otimes d))
ComplexVel(m, rho) == CSqrt(CScale(R(1) \oslash rho, m))
ZeroFreq(w) == RLt(RAbs(w), "1e-8")

Mods(ls, w) == SeqGen(Len(ls), LAMBDA i : SeqGen(Len(w), LAMBDA j : ComplexMod(V1(ls[i].G, j), V1(ls[i].D, j))))
Nums(ls, w, M) == SeqGen(Len(ls), LAMBDA i : SeqGen(Len(w), LAMBDA j :
                     CDiv(Cx(R(w[j]), R(0)), ComplexVel(M[i][j], ls[i].rho))))

Phase(k, z) == CExp(CMul(I1, CScale(z, k)))
\* amplitudes at the top of the next layer from continuity of displacement and stress
Below(ab, k1, m1, h, k2, m2) ==
    LET r == CDiv(CMul(k1, m1), CMul(k2, m2))
        u == CMul(ab[1], Phase(k1, h))
        d == CMul(ab[2], CDiv(One, Phase(k1, h)))
        p == CScale("0.5", CAdd(One, r))
        q == CScale("0.5", CSub(One, r))
    IN <<CAdd(CMul(u, p), CMul(d, q)), CAdd(CMul(u, q), CMul(d, p))>>

Amps(ls, w, K, M, j) ==
    IF ZeroFreq(w[j]) THEN SeqGen(Len(ls), LAMBDA i : <<One, One>>)
    ELSE FoldN(Len(ls) - 1, <<<<One, One>>>>,
               LAMBDA acc, i : Append(acc, Below(acc[i], K[i][j], M[i][j], ls[i].th, K[i+1][j], M[i+1][j])))

Column(ls, w) ==
    LET M == Mods(ls, w)
        K == Nums(ls, w, M)
    IN [ls |-> ls, w |-> w, K |-> K, M |-> M, AB |-> SeqGen(Len(w), LAMBDA j : Amps(ls, w, K, M, j))]

\* a location is [i (layer, from 1), z (depth within), f (wave field)]
Up(c, p, j)   == CMul(c.AB[j][p.i][1], Phase(c.K[p.i][j], p.z))
Down(c, p, j) == CMul(c.AB[j][p.i][2], CDiv(One, Phase(c.K[p.i][j], p.z)))
Field(c, p, j) == CASE p.f = "outcrop" -> CScale(R(2), Up(c, p, j))
                    [] p.f = "within" -> CAdd(Up(c, p, j), Down(c, p, j))
                    [] p.f = "incoming_only" -> Up(c, p, j)

AccelTF(c, a, b, j) == CDiv(Field(c, b, j), Field(c, a, j))
\* strain per input acceleration in g
StrainTF(c, a, b, j) ==
    IF ZeroFreq(c.w[j]) THEN Zero
    ELSE LET slope == CMul(CMul(I1, c.K[b.i][j]), CSub(Up(c, b, j), Down(c, b, j)))
             acc == CScale(RNeg(R(c.w[j]) \otimes c.w[j]), Field(c, a, j))
         IN CScale(G_ACC, CDiv(slope, acc))
StressTF(c, a, b, damped, j) ==
    IF damped THEN CMul(StrainTF(c, a, b, j), c.M[b.i][j])
    ELSE CScale(V1(c.ls[b.i].G, j), StrainTF(c, a, b, j))

\* boundary conditions, for amplitudes ab given from outside (up and down at the tops)
Mag(u, d) == RAdd(CAbs(u), CAbs(d))
\* size of the terms a wave field is made of
Size(col, p, j) == IF p.f = "within" THEN Mag(Up(col, p, j), Down(col, p, j)) ELSE CAbs(Field(col, p, j))
\* a transfer function cannot be compared where the input field (nearly) vanishes
Conditioned(col, a, j) == RLt(RMul("1e-6", Size(col, a, j)), CAbs(Field(col, a, j)))
FreeSurface(ab) == CClose(ab[1], ab[2], "1e-9", "0")
Continuous(ab1, k1, m1, h, ab2, k2, m2) ==
    LET u == CMul(ab1[1], Phase(k1, h))  d == CMul(ab1[2], CDiv(One, Phase(k1, h)))
        z1 == CMul(k1, m1)  z2 == CMul(k2, m2)
    IN /\ CClose(CAdd(u, d), CAdd(ab2[1], ab2[2]), "1e-8", RMul("1e-8", RAdd(Mag(u, d), Mag(ab2[1], ab2[2]))))
       /\ CClose(CMul(z1, CSub(u, d)), CMul(z2, CSub(ab2[1], ab2[2])), "1e-8",
                 RMul("1e-8", RAdd(RMul(CAbs(z1), Mag(u, d)), RMul(CAbs(z2), Mag(ab2[1], ab2[2])))))
=============================================================================
