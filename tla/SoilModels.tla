----------------------------- MODULE SoilModels -----------------------------
(***************************************************************************)
(* The empirical nonlinear soil models: modulus reduction and damping as     *)
(* functions of shear strain (decimal).  A soil model is described by        *)
(*   [m |-> name, dmin |-> minimum damping or "" , ...parameters]            *)
(* Stresses in kPa, plasticity, fines and water contents in percent.          *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets

Atm == R("101.325")
Kpa == R(1) \oslash Atm
Log10(x) == RLn(x) \oslash RLn(10)
Pct(x) == R(x) \oslash 100

\* ------------------------------------------------------ modified hyperbolic
Hyper(x, ref, a, b) == R(1) \oslash RPow(R(1) \oplus RPow(R(x) \oslash ref, a), b)
\* Masing damping [percent] of the hyperbolic backbone with exponent 1
Masing1(x, ref) ==
    LET g == R(100) \otimes x  h == R(100) \otimes ref
        w == (g \otimes g) \oslash (g \oplus h)
    IN (R(100) \oslash Pi) \otimes (((R(4) \otimes (g \ominus (h \otimes RLn((g \oplus h) \oslash h)))) \oslash w) \ominus 2)
Poly(a, c2, c1, c0) == ((R(c2) \otimes (R(a) \otimes a)) \oplus (R(c1) \otimes a)) \oplus c0
MasingDamping(x, ref, a) ==
    LET d == Masing1(x, ref) IN
    RSum(<<Poly(a, "-1.1143", "1.8618", "0.2523") \otimes d,
           Poly(a, "0.0805", "-0.0710", "-0.0095") \otimes (d \otimes d),
           Poly(a, "-0.0005", "0.0002", "0.0003") \otimes (d \otimes (d \otimes d))>>)
\* scaled Masing damping [decimal] before it is kept from decreasing
Scaled(x, ref, a, b) == ((R(b) \otimes MasingDamping(x, ref, a)) \otimes RPow(Hyper(x, ref, a, 1), "0.1")) \oslash 100
RunMax(s) == FoldN(Len(s), <<>>, LAMBDA acc, i : Append(acc, IF i = 1 THEN s[1] ELSE RMax(acc[i-1], s[i])))

Masings == {"darendeli", "menq", "rollins"}
RefStrain(k) ==
    CASE k.m = "darendeli" -> ((R("0.0352") \oplus ((R("0.0010") \otimes k.pi) \otimes RPow(k.ocr, "0.3246"))) \otimes RPow(Kpa \otimes k.s, "0.3483")) \oslash 100
      [] k.m = "menq" -> ((R("0.12") \otimes RPow(k.cu, "-0.6")) \otimes RPow(Kpa \otimes k.s, R("0.5") \otimes RPow(k.cu, "-0.15"))) \oslash 100
      [] k.m = "rollins" -> IF k.cu = "" THEN (R("0.0039") \otimes RPow(k.s, "0.42")) \oslash 100
                            ELSE ((R("0.0046") \otimes RPow(k.cu, "-0.197")) \otimes RPow(k.s, "0.52")) \oslash 100
Curvature(k) ==
    CASE k.m = "darendeli" -> R("0.9190")
      [] k.m = "menq" -> R("0.86") \oplus (R("0.1") \otimes Log10(Kpa \otimes k.s))
      [] k.m = "rollins" -> R("0.84")
CycleScale(k) ==
    IF k.m = "rollins" THEN R("0.53") \ominus (R("0.0057") \otimes RLn(k.n)) ELSE R("0.6329") \ominus (R("0.00566") \otimes RLn(k.n))
OwnDmin(k) ==
    CASE k.m = "darendeli" -> (((R("0.8005") \oplus ((R("0.0129") \otimes k.pi) \otimes RPow(k.ocr, "-0.1069"))) \otimes RPow(Kpa \otimes k.s, "-0.2889")) \otimes (R(1) \oplus (R("0.2919") \otimes RLn(k.f)))) \oslash 100
      [] k.m = "menq" -> ((R("0.55") \otimes RPow(k.cu, "0.1")) \otimes (RPow(k.d50, "-0.3") \otimes RPow(Kpa \otimes k.s, "-0.08"))) \oslash 100
      [] k.m = "rollins" -> R("0.01")

\* -------------------------------------------------------- two parameters
\* k.c: the coefficients a, b1, b2, g1, g2, d0, d1, d, c, gd1, gd2
TwoDefault == <<"1.04", "0.438", "-0.007", "0.011", "0.318", "1.47", "-0.2", "13.125", "1.187", "0.11", "0.23">>
TwoRef(k) == (R(k.c[4]) \otimes RPow(Kpa \otimes k.s, k.c[5])) \oslash 100
TwoDmin(k) == R(k.c[6]) \otimes RPow(Kpa \otimes k.s, k.c[7])     \* percent
TwoMod(k, x) == Hyper(x, TwoRef(k), k.c[1], R(k.c[2]) \oplus ((R(k.c[3]) \otimes Kpa) \otimes k.s))
Blend(r, d, d0) == (((R(d) \otimes r) \oplus d0) \oslash (R(r) \oplus 1)) \oslash 100      \* d, d0 in percent
TwoDamp(k, x) ==
    Blend(RPow(R(x) \oslash ((R(k.c[10]) \otimes RPow(Kpa \otimes k.s, k.c[11])) \oslash 100), k.c[9]), k.c[8], TwoDmin(k))

\* ------------------------------------------------- transitional silts (Alemu)
AlemuRef(k) == (((R("0.166") \otimes RPow(k.ocr, "-1.678")) \otimes RPow(Kpa \otimes k.s, "0.196")) \oplus (R("0.025") \otimes RPow(R(k.pi) \oplus 1, "0.675"))) \oslash 100
AlemuMod(k, x) == Hyper(x, AlemuRef(k), "0.905", "1.373")
AlemuDmin(k) == (((R("3.64e-4") \otimes k.ocr) \otimes (R(k.pi) \oplus 1)) \oplus (R("0.012") \otimes k.fc)) \oslash (Kpa \otimes k.s)
AlemuDamp(k, x) ==
    LET gd == RPow((RPow(k.ocr, "-0.381") \otimes RPow(Kpa \otimes k.s, "0.853")) \oplus (R("0.021") \otimes k.pi), "1.249") \oslash 100
        q  == R(x) \oslash gd
    IN AlemuDmin(k) \oplus ((R("0.29805") \otimes q) \oslash RPow(R(1) \oplus q, "0.680"))

\* --------------------------------------------------- organic soils (Kishida)
KX3(k) == R(2) \oslash (R(1) \oplus RExp(R(k.oc) \oslash 23))
KRef(k) == RExp(R("-1.41") \ominus (R("0.950") \otimes (KX3(k) \ominus "0.5")))     \* percent
KLnG(k, x) ==
    LET g == R(100) \otimes x  gr == KRef(k)
        x1 == RLn(g \oplus gr)  x2 == RLn(k.s)  x3 == KX3(k)  x4 == RLn(k.lcr)
        den == RLn((R(1) \oslash gr) \oplus (g \oslash gr))
        t  == R(1) \oplus ((RLn(gr) \oplus "2.5") \oslash den)
        u1 == x1 \oplus "2.5"  u2 == x2 \ominus 4  u3 == x3 \ominus "0.5"
    IN RSum(<<R("5.11"), RNeg(R("0.729") \otimes x1), (R(1) \ominus (R("0.185") \otimes t)) \otimes x2,
              RNeg(R("0.693") \otimes x3), (R("0.8") \ominus (R("0.4") \otimes x3)) \otimes x4,
              (R("0.185") \oslash den) \otimes (u1 \otimes u2),
              RNeg((R("0.37") \otimes t) \otimes (u2 \otimes u3)),
              (R("0.37") \oslash den) \otimes (u1 \otimes (u2 \otimes u3))>>)
\* relative to the smallest strain, x0
KMod(k, x, x0) == RExp(KLnG(k, x) \ominus KLnG(k, x0))
KDamp(k, mr) ==
    LET y == RLn(RNeg(RLn(mr)) \oplus "0.103")  x2 == RLn(k.s)  x3 == KX3(k) IN
    RExp(RSum(<<R("2.86"), R("0.571") \otimes y, RNeg(R("0.103") \otimes x2), RNeg(R("0.141") \otimes x3),
                (R("0.0419") \otimes (y \oplus 1)) \otimes (x2 \ominus 4), RNeg((R("0.240") \otimes (x2 \ominus 4)) \otimes (x3 \ominus "0.5"))>>)) \oslash 100
KUnitWt(k) == R("9.80665") \otimes RExp(RSum(<<R("-0.112"), R("0.038") \otimes RLn(k.s), R("0.360") \otimes KX3(k)>>))

\* --------------------------------------------------------- Wang and Stokoe
Groups == {"sand", "silt", "clay"}
Quantities == {"gmax", "ggmax", "dmin", "damping"}
\* parameters that each level of detail adds
Adds == [sand |-> [gmax |-> <<"s", "e", "d50", "cu", "fc">>, ggmax |-> <<"s", "e", "cu", "fc">>,
                   dmin |-> <<"s", "fc", "w", "e", "d50">>, damping |-> <<"s", "e", "fc", "cu">>],
         silt |-> [gmax |-> <<"s", "e", "w">>, ggmax |-> <<"s", "e", "fc">>, dmin |-> <<"s", "e", "fc">>, damping |-> <<"s", "e", "fc">>],
         clay |-> [gmax |-> <<"s", "e", "ocr", "fc", "pi">>, ggmax |-> <<"s", "e", "fc", "ocr", "pi">>,
                   dmin |-> <<"s", "e", "pi", "fc">>, damping |-> <<"s", "w", "pi", "fc">>]]
\* most detailed level for which all parameters are supplied; -1: none
Level(group, q, given) ==
    LET a == Adds[group][q]
        ok == {l \in 1..Len(a) : \A i \in 1..l : a[i] \in given}
    IN IF ok = {} THEN -1 ELSE (CHOOSE l \in ok : \A m \in ok : m <= l) - 1
Given(k) == {x \in {"s", "e", "d50", "cu", "fc", "w", "pi", "ocr"} : k[x] # ""}
\* contents as decimals
Dec(k) == [s |-> k.s, e |-> k.e, d50 |-> k.d50, cu |-> k.cu, ocr |-> k.ocr,
           fc |-> IF k.fc = "" THEN "" ELSE Pct(k.fc), w |-> IF k.w = "" THEN "" ELSE Pct(k.w), pi |-> IF k.pi = "" THEN "" ELSE Pct(k.pi)]
WangG(group, level, p) ==
    CASE group = "sand" /\ level = 0 -> ("108.4" \otimes RPow((p.s \otimes Kpa), "0.51"))
      [] group = "sand" /\ level = 1 -> (("67.5" \otimes RPow(p.e, "-0.86")) \otimes RPow((p.s \otimes Kpa), "0.5"))
      [] group = "sand" /\ level = 2 -> (("66.5" \otimes RPow(p.e, ("-0.75" \ominus RPow(("0.009" \otimes p.d50), "1.58")))) \otimes RPow((p.s \otimes Kpa), "0.51"))
      [] group = "sand" /\ level = 3 -> ((("64.3" \otimes RPow(p.cu, "-0.21")) \otimes RPow(p.e, ("-1.08" \ominus RPow(("0.09" \otimes p.d50), "0.51")))) \otimes RPow((p.s \otimes Kpa), ("0.47" \otimes RPow(p.cu, "0.06"))))
      [] group = "sand" /\ level = 4 -> ((("63.9" \otimes RPow(p.cu, "-0.21")) \otimes RPow(p.e, ("-1.12" \ominus RPow(("0.09" \otimes p.d50), "0.54")))) \otimes RPow((p.s \otimes Kpa), (("0.48" \otimes RPow(p.cu, "0.08")) \ominus ("1.03" \otimes p.fc))))
      [] group = "silt" /\ level = 0 -> ("89.1" \otimes RPow((p.s \otimes Kpa), "0.51"))
      [] group = "silt" /\ level = 1 -> (("59.2" \otimes RPow(p.e, "-0.74")) \otimes RPow((p.s \otimes Kpa), "0.51"))
      [] group = "silt" /\ level = 2 -> ((("84.8" \otimes RPow(p.e, "-0.53")) \otimes ("1" \ominus ("1.32" \otimes p.w))) \otimes RPow((p.s \otimes Kpa), "0.52"))
      [] group = "clay" /\ level = 0 -> ("77.2" \otimes RPow((p.s \otimes Kpa), "0.48"))
      [] group = "clay" /\ level = 1 -> (("52.3" \otimes RPow(p.e, "-1.08")) \otimes RPow((p.s \otimes Kpa), "0.4"))
      [] group = "clay" /\ level = 2 -> ((("18.9" \otimes RPow(p.e, "-0.97")) \otimes RPow(("4.5" \oplus p.ocr), "0.54")) \otimes RPow((p.s \otimes Kpa), "0.48"))
      [] group = "clay" /\ level = 3 -> (((("34" \otimes RPow(p.e, "-0.8")) \otimes RPow(("3.13" \oplus p.ocr), "0.53")) \otimes ("1" \ominus ("0.46" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "0.51"))
      [] group = "clay" /\ level = 4 -> (((("232.9" \otimes RPow(("1" \oplus ("0.96" \otimes p.e)), "-2.42")) \otimes RPow(("1.92" \oplus p.ocr), ("0.27" \oplus ("0.46" \otimes p.pi)))) \otimes ("1" \ominus ("0.44" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "0.49"))

WangMod(group, level, p) ==
    CASE group = "sand" /\ level = 0 -> <<R("0.729"), R("0.985"), ("0.068" \otimes RPow((p.s \otimes Kpa), "0.4"))>>
      [] group = "sand" /\ level = 1 -> <<R("0.804"), R("0.882"), ((("0.13" \otimes RPow(p.e, "0.545")) \ominus "0.043") \otimes RPow((p.s \otimes Kpa), "0.45"))>>
      [] group = "sand" /\ level = 2 -> <<R("0.834"), R("0.839"), ((("0.05" \otimes RPow(p.e, ("0.1" \otimes p.cu))) \oplus "0.011") \otimes RPow((p.s \otimes Kpa), "0.45"))>>
      [] group = "sand" /\ level = 3 -> <<("0.834" \oplus p.fc), ("0.844" \ominus ("1.897" \otimes p.fc)), ((("0.048" \otimes RPow(p.e, ("0.089" \otimes p.cu))) \oplus "0.008") \otimes RPow((p.s \otimes Kpa), "0.4"))>>
      [] group = "silt" /\ level = 0 -> <<R("1.04"), ("0.438" \ominus (("0.007" \otimes p.s) \otimes Kpa)), ("0.011" \otimes RPow((p.s \otimes Kpa), "0.318"))>>
      [] group = "silt" /\ level = 1 -> <<("1.139" \otimes RExp(("0.093" \otimes p.e))), ("0.475" \ominus (("0.007" \otimes p.s) \otimes Kpa)), ((("0.029" \otimes p.e) \ominus "0.003") \otimes RPow((p.s \otimes Kpa), "0.335"))>>
      [] group = "silt" /\ level = 2 -> <<RPow((("1.495" \otimes p.e) \oplus ("3.079" \otimes p.fc)), "0.121"), ("0.486" \ominus (("0.006" \otimes p.s) \otimes Kpa)), ((("0.031" \otimes p.e) \ominus "0.003") \otimes RPow((p.s \otimes Kpa), ("0.405" \ominus ("0.193" \otimes p.fc))))>>
      [] group = "clay" /\ level = 0 -> <<R("1.364"), R("0.28"), ("0.015" \otimes RPow((p.s \otimes Kpa), "0.205"))>>
      [] group = "clay" /\ level = 1 -> <<R("1.185"), R("0.475"), (("0.035" \otimes p.e) \otimes RPow((p.s \otimes Kpa), "0.276"))>>
      [] group = "clay" /\ level = 2 -> <<("0.966" \oplus ("0.378" \otimes p.fc)), ("0.596" \ominus ("0.207" \otimes p.fc)), ((("0.031" \otimes p.e) \oplus ("0.004" \otimes p.fc)) \otimes RPow((p.s \otimes Kpa), "0.25"))>>
      [] group = "clay" /\ level = 3 -> <<("0.972" \oplus ("0.419" \otimes p.fc)), ("0.571" \ominus ("0.2" \otimes p.fc)), ((("0.025" \otimes p.e) \oplus ("0.0015" \otimes p.fc)) \otimes RPow(((p.s \otimes Kpa) \oplus ("0.375" \otimes p.ocr)), "0.358"))>>
      [] group = "clay" /\ level = 4 -> <<(("0.896" \oplus ("0.412" \otimes p.fc)) \oplus ("0.534" \otimes p.pi)), (("0.586" \ominus ("0.098" \otimes p.e)) \ominus ("0.135" \otimes p.fc)), ((("0.02" \otimes p.e) \oplus ("0.004" \otimes p.fc)) \otimes RPow(((p.s \otimes Kpa) \oplus ("0.42" \otimes p.ocr)), ("0.447" \ominus ("0.27" \otimes p.pi))))>>

WangDmin(group, level, p) ==
    CASE group = "sand" /\ level = 0 -> ("0.77" \otimes RPow((p.s \otimes Kpa), "-0.03"))
      [] group = "sand" /\ level = 1 -> (("0.55" \otimes ("1" \oplus ("29.03" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "-0.13"))
      [] group = "sand" /\ level = 2 -> ((("0.64" \otimes RPow(("0.26" \ominus p.w), "0.11")) \otimes ("1" \oplus ("32.8" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "-0.12"))
      [] group = "sand" /\ level = 3 -> ((("0.55" \otimes RPow(("1" \ominus p.w), ("-12.49" \oplus ("19.45" \otimes p.e)))) \otimes ("1" \oplus ("23.44" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "-0.14"))
      [] group = "sand" /\ level = 4 -> ((("0.6" \otimes RPow(("0.99" \oplus p.w), (("7.45" \ominus ("15.23" \otimes p.e)) \oplus ("4.29" \otimes p.d50)))) \otimes ("1" \oplus ("21.17" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "-0.14"))
      [] group = "silt" /\ level = 0 -> ("1.47" \otimes RPow((p.s \otimes Kpa), "-0.2"))
      [] group = "silt" /\ level = 1 -> (("39.11" \otimes RPow(("0.44" \otimes p.e), ("4.32" \otimes p.e))) \otimes RPow((p.s \otimes Kpa), "-0.19"))
      [] group = "silt" /\ level = 2 -> ((("52.16" \otimes RPow(("0.41" \otimes p.e), (("0.81" \otimes p.fc) \oplus ("5.2" \otimes p.e)))) \otimes ("1" \oplus ("5.35" \otimes p.fc))) \otimes RPow((p.s \otimes Kpa), "-0.19"))
      [] group = "clay" /\ level = 0 -> ("2.55" \otimes RPow((p.s \otimes Kpa), "-0.11"))
      [] group = "clay" /\ level = 1 -> ((("7.62" \otimes RPow("13.48", RNeg(p.e))) \otimes RPow((p.s \otimes Kpa), "-0.29")) \oplus RPow("0.72", RNeg(p.e)))
      [] group = "clay" /\ level = 2 -> (((("7.29" \otimes RPow("8", (RNeg(p.e) \ominus ("3.31" \otimes p.pi)))) \otimes ("1" \oplus ("148" \otimes RPow(p.pi, "1.95")))) \otimes RPow((p.s \otimes Kpa), "-0.2")) \oplus RPow(("0.5" \otimes p.pi), ("2.54" \ominus ("1.8" \otimes p.e))))
      [] group = "clay" /\ level = 3 -> (((("4.86" \otimes RPow(("1.99" \oplus p.fc), (("-1.91" \otimes p.e) \ominus ("6.5" \otimes p.pi)))) \otimes ("1" \oplus ("106.75" \otimes RPow(p.pi, "1.64")))) \otimes RPow((p.s \otimes Kpa), "-0.19")) \oplus RPow(("0.46" \otimes p.pi), ("1.73" \ominus ("1.34" \otimes p.e))))

WangDamp(group, level, p) ==
    CASE group = "sand" /\ level = 0 -> <<R("0.93"), R("15.64"), ("0.09" \otimes RPow((p.s \otimes Kpa), "0.32"))>>
      [] group = "sand" /\ level = 1 -> <<("1.08" \otimes RExp(("0.62" \ominus ("0.73" \otimes p.e)))), R("16.39"), ("0.09" \otimes RPow((p.s \otimes Kpa), "0.39"))>>
      [] group = "sand" /\ level = 2 -> <<("1.02" \otimes RExp(("0.56" \ominus ("0.72" \otimes p.e)))), R("21.17"), ("0.13" \otimes RPow(((p.s \otimes Kpa) \oplus ("17.94" \otimes p.fc)), ("0.45" \ominus p.fc)))>>
      [] group = "sand" /\ level = 3 -> <<("0.93" \otimes RExp(("0.34" \ominus ("0.8" \otimes p.e)))), R("18.13"), (("0.13" \otimes RPow(p.cu, "-0.31")) \otimes RPow(((p.s \otimes Kpa) \oplus ("22.04" \otimes p.fc)), ("0.47" \ominus p.fc)))>>
      [] group = "silt" /\ level = 0 -> <<R("1.187"), R("13.125"), ("0.045" \otimes RPow((p.s \otimes Kpa), "0.293"))>>
      [] group = "silt" /\ level = 1 -> <<("1.38" \otimes RExp(("0.25" \otimes p.e))), R("12.09"), ("0.0066" \otimes RPow(((p.s \otimes Kpa) \oplus ("5.79" \otimes p.e)), "1.01"))>>
      [] group = "silt" /\ level = 2 -> <<("1.39" \otimes RExp(("0.27" \otimes p.e))), R("12.13"), ("0.0025" \otimes RPow((((p.s \otimes Kpa) \oplus ("5.73" \otimes p.e)) \oplus ("9.17" \otimes p.fc)), ("1.47" \ominus ("0.52" \otimes p.fc))))>>
      [] group = "clay" /\ level = 0 -> <<R("1.12"), R("19.47"), ("0.11" \otimes RPow((p.s \otimes Kpa), "0.23"))>>
      [] group = "clay" /\ level = 1 -> <<R("1.36"), R("15.16"), ("0.29" \otimes RPow(((("0.017" \otimes p.s) \otimes Kpa) \oplus p.w), ("1.15" \oplus p.w)))>>
      [] group = "clay" /\ level = 2 -> <<RPow("1.48", ("0.53" \oplus p.pi)), R("15.61"), ("0.07" \otimes RPow(((("0.06" \otimes p.s) \otimes Kpa) \oplus ("2.69" \otimes p.w)), (("1.06" \oplus p.w) \ominus p.pi)))>>
      [] group = "clay" /\ level = 3 -> <<RPow(("1.91" \otimes p.fc), ("1.62" \otimes p.pi)), R("21.7"), ("0.11" \otimes RPow((((("0.12" \otimes p.s) \otimes Kpa) \oplus ("5.29" \otimes p.w)) \ominus p.fc), ((("1.45" \ominus p.pi) \oplus p.w) \ominus ("1.09" \otimes p.fc))))>>

WangGmax(k)      == WangG(k.group, Level(k.group, "gmax", Given(k)), Dec(k))
WangModRed(k, x) == LET t == WangMod(k.group, Level(k.group, "ggmax", Given(k)), Dec(k)) IN Hyper(R(100) \otimes x, t[3], t[1], t[2])
WangDminDec(k)   == WangDmin(k.group, Level(k.group, "dmin", Given(k)), Dec(k)) \oslash 100
WangDamping(k, x, d0) ==
    LET t == WangDamp(k.group, Level(k.group, "damping", Given(k)), Dec(k)) IN
    Blend(RPow((R(100) \otimes x) \oslash t[3], t[1]), t[2], R(100) \otimes d0)

\* --------------------------------------------------------------- all models
Dmin(k) ==
    IF k.m \in Masings \cup {"wang"} /\ k.dmin # "" THEN R(k.dmin)
    ELSE CASE k.m \in Masings -> OwnDmin(k)
           [] k.m = "wang" -> WangDminDec(k)
           [] k.m = "two" -> TwoDmin(k) \oslash 100
           [] k.m = "alemu" -> AlemuDmin(k)
           [] k.m = "kishida" -> KDamp(k, R(1))
ModReduc(k, xs) ==
    SeqMap(xs, LAMBDA x :
        CASE k.m \in Masings -> Hyper(x, RefStrain(k), Curvature(k), 1)
          [] k.m = "wang" -> WangModRed(k, x)
          [] k.m = "two" -> TwoMod(k, x)
          [] k.m = "alemu" -> AlemuMod(k, x)
          [] k.m = "kishida" -> KMod(k, x, xs[1]))
Damping(k, xs) ==
    LET d0 == Dmin(k) IN
    IF k.m \in Masings
    THEN SeqMap(RunMax(SeqMap(xs, LAMBDA x : Scaled(x, RefStrain(k), Curvature(k), CycleScale(k)))), LAMBDA d : d0 \oplus d)
    ELSE SeqMap(xs, LAMBDA x :
            CASE k.m = "wang" -> WangDamping(k, x, d0)
              [] k.m = "two" -> TwoDamp(k, x)
              [] k.m = "alemu" -> AlemuDamp(k, x)
              [] k.m = "kishida" -> KDamp(k, KMod(k, x, xs[1])))
DefaultStrains == SeqGen(20, LAMBDA i : RPow(10, R(-6) \oplus ((R("4.5") \otimes (i - 1)) \oslash 19)))
=============================================================================
