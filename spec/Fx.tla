---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Real and complex arithmetic for the specification.                       *)
(*                                                                         *)
(* A real is a fixed-point number: the big integer x stands for x / 2^PREC. *)
(* Every operation is exact or truncated in the last place, so with         *)
(* PREC = 192 the specification's own error is far below anything that      *)
(* binary64 code can resolve.  A complex number is a pair <<re, im>>.       *)
(*                                                                         *)
(* A binary64 value recorded from the implementation arrives as the exact   *)
(* triple <<e, hi, lo>> = (hi*2^27 + lo) * 2^e; e = 9999 marks a NaN        *)
(* (hi = 0) or an infinity (hi = 1 or -1).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Big, TLC

PREC == 192

FxZero == BZero
FxInt(n) == BShl(BInt(n), PREC)
FxOne == FxInt(1)
FxAdd(a, b) == BAdd(a, b)
FxSub(a, b) == BSub(a, b)
FxMul(a, b) == BMulShr(a, b, PREC)
FxDiv(a, b) == BDiv(BShl(a, PREC), b)
FxSqrt(a) == BSqrt(BShl(a, PREC))
FxMulInt(a, n) == BMul(a, BInt(n))
FxDivInt(a, n) == BDiv(a, BInt(n))
\* sqrt(num/den) and num/den for big integers num, den > 0
FxSqrtRatio(num, den) == BSqrt(BDiv(BShl(num, 2 * PREC), den))
FxRatio(num, den) == BDiv(BShl(num, PREC), den)
FxRat(n, d) == FxRatio(BInt(n), BInt(d))

\* ---------------------------------------------------------------- tables
RECURSIVE FxPowersFrom(_, _, _)
LOCAL FxPowersFrom(acc, b, n) == IF n = 0 THEN acc
                           ELSE FxPowersFrom(Append(acc, FxMul(acc[Len(acc)], b)), b, n-1)
FxPowers(b, n) == FxPowersFrom(<<FxOne>>, b, n)          \* index k+1 holds b^k, 0 <= k <= n

\* ------------------------------------------------------------- constants
\* arctan(1/q) = sum (-1)^k / ((2k+1) q^(2k+1))
\* (no LET inside: TLC evaluates the constants below once only without it)
RECURSIVE AtanInv(_, _, _, _)
LOCAL AtanInv(q, pw, k, acc) ==
    IF BSgn(pw) = 0 THEN acc
    ELSE AtanInv(q, BDiv(pw, BInt(q*q)), k+1, BAdd(acc, BDiv(pw, BInt(IF k % 2 = 0 THEN 2*k + 1 ELSE -(2*k + 1)))))
LOCAL Guard == 32
LOCAL AtanOver(q) == AtanInv(q, BDiv(BShl(BOne, PREC + Guard), BInt(q)), 0, BZero)
\* Machin: pi = 16 arctan(1/5) - 4 arctan(1/239)
FxPi == BShr(BSub(BMul(BInt(16), AtanOver(5)), BMul(BInt(4), AtanOver(239))), Guard)

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN BOne ELSE BMul(BInt(10), Pow10(k-1))
FxTen(k) == BDiv(BShl(BOne, PREC), Pow10(k))                      \* 10^-k
FxSciN(n, k) == BDiv(BShl(BInt(n), PREC), Pow10(k))                \* n * 10^-k

\* ------------------------------------------- elementary functions (Taylor)
RECURSIVE SinTerms(_, _, _, _), CosTerms(_, _, _, _)
LOCAL SinTerms(x2, t, k, acc) == IF BSgn(t) = 0 THEN acc
    ELSE LET u == BNeg(BDiv(FxMul(t, x2), BInt((2*k)*(2*k+1))))
         IN  SinTerms(x2, u, k+1, BAdd(acc, u))
LOCAL CosTerms(x2, t, k, acc) == IF BSgn(t) = 0 THEN acc
    ELSE LET u == BNeg(BDiv(FxMul(t, x2), BInt((2*k-1)*(2*k))))
         IN  CosTerms(x2, u, k+1, BAdd(acc, u))
FxSin(x) == SinTerms(FxMul(x, x), x, 1, x)
FxCos(x) == CosTerms(FxMul(x, x), FxOne, 1, FxOne)

\* --------------------------------------------------------------- complex
CZero == <<FxZero, FxZero>>
COne  == <<FxOne, FxZero>>
CReal(x) == <<x, FxZero>>
CAdd(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2])>>
CSub(a, b) == <<BSub(a[1], b[1]), BSub(a[2], b[2])>>
CNeg(a) == <<BNeg(a[1]), BNeg(a[2])>>
CConj(a) == <<a[1], BNeg(a[2])>>
CMul(a, b) == << BSub(FxMul(a[1], b[1]), FxMul(a[2], b[2])),
                 BAdd(FxMul(a[1], b[2]), FxMul(a[2], b[1])) >>
CScale(x, a) == <<FxMul(x, a[1]), FxMul(x, a[2])>>
CScaleInt(n, a) == <<FxMulInt(a[1], n), FxMulInt(a[2], n)>>
CMulI(a) == <<BNeg(a[2]), a[1]>>                                   \* i*a
CNormSq(a) == BAdd(FxMul(a[1], a[1]), FxMul(a[2], a[2]))
CDiv(a, b) == LET n == CNormSq(b)  c == CMul(a, CConj(b))
              IN  <<FxDiv(c[1], n), FxDiv(c[2], n)>>
CCis(x) == <<FxCos(x), FxSin(x)>>                                  \* exp(ix)
RECURSIVE CPowersFrom(_, _, _)
LOCAL CPowersFrom(acc, b, n) == IF n = 0 THEN acc
                          ELSE CPowersFrom(Append(acc, CMul(acc[Len(acc)], b)), b, n-1)
CPowers(b, n) == CPowersFrom(<<COne>>, b, n)
CMaxAbs(a) == LET x == BAbs(a[1])  y == BAbs(a[2]) IN IF BLeq(x, y) THEN y ELSE x

\* --------------------------------------------- recorded binary64 numbers
IsFinite(f) == f[1] # 9999
IsNaN(f) == f[1] = 9999 /\ f[2] = 0
FxOf(f) == BScaled(f[1], f[2], f[3], PREC)
\* recorded complex numbers are pairs of recorded reals
CFinite(z) == IsFinite(z[1]) /\ IsFinite(z[2])
COf(z) == <<FxOf(z[1]), FxOf(z[2])>>

FxNear(x, y, tol) == BLeq(BAbs(BSub(x, y)), tol)
CNear(a, b, tol) == FxNear(a[1], b[1], tol) /\ FxNear(a[2], b[2], tol)
\* the recorded value f (z) is finite and within tol of the specified x (c)
FxIs(f, x, tol) == IsFinite(f) /\ FxNear(FxOf(f), x, tol)
CIs(z, c, tol) == CFinite(z) /\ CNear(COf(z), c, tol)
IsZero(f) == f[2] = 0 /\ f[3] = 0 /\ IsFinite(f)
CIsZero(z) == IsZero(z[1]) /\ IsZero(z[2])
FxMax(a, b) == IF BLeq(a, b) THEN b ELSE a
===============================================================================
