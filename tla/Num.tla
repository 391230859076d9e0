-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the pystrata specifications.                         *)
(*                                                                         *)
(* TLC has no real numbers.  The operators below denote the operations of   *)
(* the real field (and the usual elementary functions); TLC evaluates them  *)
(* through the module override NumOverrides.java in IEEE-754 binary64.      *)
(* A real is represented by a pair <<hi, lo>> of 32-bit integers (the bits  *)
(* of the double), so that it can be part of a state and be fingerprinted.  *)
(* Arguments may also be TLC integers, or strings ("0.35", "inf", "nan"),   *)
(* which is how traces recorded from the implementation carry numbers.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

R(x)         == CHOOSE r : r = x          \* canonical representation of x
RAdd(a, b)   == CHOOSE r : TRUE           \* a + b
RSub(a, b)   == CHOOSE r : TRUE
RMul(a, b)   == CHOOSE r : TRUE
RDiv(a, b)   == CHOOSE r : TRUE
RPow(a, b)   == CHOOSE r : TRUE
RNeg(a)      == CHOOSE r : TRUE
RAbs(a)      == CHOOSE r : TRUE
RSqrt(a)     == CHOOSE r : TRUE
RExp(a)      == CHOOSE r : TRUE
RLn(a)       == CHOOSE r : TRUE
RSin(a)      == CHOOSE r : TRUE
RCos(a)      == CHOOSE r : TRUE
RMin(a, b)   == CHOOSE r : TRUE
RMax(a, b)   == CHOOSE r : TRUE
RCeil(a)     == CHOOSE r : TRUE           \* as a TLC integer
RFloor(a)    == CHOOSE r : TRUE           \* as a TLC integer
RLt(a, b)    == CHOOSE r : TRUE           \* a < b    (FALSE on NaN)
RLe(a, b)    == CHOOSE r : TRUE           \* a <= b   (FALSE on NaN)
REq(a, b)    == CHOOSE r : TRUE           \* a = b as reals
RFinite(a)   == CHOOSE r : TRUE
RNaN(a)      == CHOOSE r : TRUE
\* |a - b| <= atol + rtol * max(|a|, |b|); FALSE if either is not finite,
\* except that equal infinities are close.
RClose(a, b, rtol, atol) == CHOOSE r : TRUE
RStr(a)      == CHOOSE r : TRUE           \* decimal text, for messages
RSum(s)      == CHOOSE r : TRUE           \* sum of a sequence of reals
Pi           == CHOOSE r : TRUE

\* Eager constructors.  TLC evaluates [i \in 1..n |-> e] lazily and repeatedly;
\* SeqGen evaluates each element exactly once.  FoldN folds over 1..n.
SeqGen(n, Op(_))            == [i \in 1..n |-> Op(i)]
SeqMap(s, Op(_))            == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE FoldN_(_, _, _, _)
FoldN_(n, acc, Op(_,_), i)  == IF i > n THEN acc ELSE FoldN_(n, Op(acc, i), Op, i + 1)
FoldN(n, base, Op(_,_))     == FoldN_(n, base, Op, 1)
\* AllN(n, P) == \A i \in 1..n : P(i)
AllN(n, Op(_))              == \A i \in 1..n : Op(i)

a \oplus b   == RAdd(a, b)
a \ominus b  == RSub(a, b)
a \otimes b  == RMul(a, b)
a \oslash b  == RDiv(a, b)

\* ---------------------------------------------------------------- complex
\* A complex number is <<re, im>>.
CRe(z)      == z[1]
CIm(z)      == z[2]
Cx(re, im)  == <<re, im>>
CAdd(x, y)  == CHOOSE r : TRUE
CSub(x, y)  == CHOOSE r : TRUE
CMul(x, y)  == CHOOSE r : TRUE
CDiv(x, y)  == CHOOSE r : TRUE
CScale(a, x) == CHOOSE r : TRUE           \* real times complex
CExp(x)     == CHOOSE r : TRUE
CSqrt(x)    == CHOOSE r : TRUE            \* principal branch
CAbs(x)     == CHOOSE r : TRUE
CFinite(x)  == RFinite(x[1]) /\ RFinite(x[2])
\* |x - y| <= atol + rtol * max(|x|, |y|)
CClose(x, y, rtol, atol) == CHOOSE r : TRUE
=============================================================================
