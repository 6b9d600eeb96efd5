-------------------------------- MODULE Wigner --------------------------------
(***************************************************************************)
(* Wigner's D matrices, Wigner's d, spin-weighted spherical harmonics, the  *)
(* 3-j symbols and Clebsch-Gordan coefficients, from their closed forms.    *)
(* Indices may be half-integers: every operator takes TWICE the index.      *)
(***************************************************************************)
EXTENDS Fx

\* ------------------------------------------------ factorials, binomials
CONSTANT FactLimit
RECURSIVE FactUpTo(_, _)
LOCAL FactUpTo(acc, n) == IF n > FactLimit THEN acc
                          ELSE FactUpTo(Append(acc, BMul(acc[n], BInt(n))), n+1)
FactTable == FactUpTo(<<BOne>>, 1)
Fact(n) == FactTable[n+1]
Binom(n, k) == IF k < 0 \/ k > n THEN BZero ELSE BDiv(Fact(n), BMul(Fact(k), Fact(n-k)))
RECURSIVE BinomRow(_, _, _)
LOCAL BinomRow(n, k, acc) == IF k > n THEN acc ELSE BinomRow(n, k+1, Append(acc, Binom(n, k)))
BINMAX == 66
RECURSIVE BinRows(_, _)
LOCAL BinRows(n, acc) == IF n > BINMAX THEN acc ELSE BinRows(n+1, Append(acc, BinomRow(n, 0, <<>>)))
BinTable == BinRows(0, <<>>)
Bin(n, k) == IF k < 0 \/ k > n THEN BZero ELSE BinTable[n+1][k+1]

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a

\* ------------------------------------------------------------ D matrices
(* A rotor is R = Ra + Rb.j with |Ra|^2+|Rb|^2 = 1; its power tables hold,  *)
(* up to n, the powers of Ra, Rb and of |Ra|^2, |Rb|^2.                     *)
RotorTables(ra, rb, n) == TLCEval(
    [pa |-> CPowers(ra, n), pb |-> CPowers(rb, n),
     na |-> FxPowers(CNormSq(ra), n), nb |-> FxPowers(CNormSq(rb), n)])

ValidD(L, MP, M) == /\ L >= 0 /\ Abs(MP) <= L /\ Abs(M) <= L
                    /\ (L - MP) % 2 = 0 /\ (L - M) % 2 = 0

\* z^k with z^-k := conj(z)^k  (the phase of z, weighted by |z|^|k|)
LOCAL SPow(tab, k) == IF k >= 0 THEN tab[k+1] ELSE CConj(tab[-k+1])

RECURSIVE DSum(_, _, _, _, _, _, _, _)
(* sum over rho of (-1)^rho C(l+m',rho) C(l-m',l-rho-m)                      *)
(*        |Ra|^(2 min(l+m'-rho, l-m-rho)) |Rb|^(2 min(rho, rho-m'+m))        *)
(* together with the sum of the absolute values of the terms                 *)
LOCAL DSum(t, lpmp, lmmp, lmm, mmmp, rho, hi, acc) ==
    IF rho > hi THEN acc
    ELSE LET c == BMul(Bin(lpmp, rho), Bin(lmmp, lmm - rho))
             x == FxMul(t.na[Min(lpmp - rho, lmm - rho) + 1], t.nb[Min(rho, rho + mmmp) + 1])
             y == BMul(c, x)
         IN  DSum(t, lpmp, lmmp, lmm, mmmp, rho+1, hi,
                  << IF rho % 2 = 0 THEN BAdd(acc[1], y) ELSE BSub(acc[1], y), BAdd(acc[2], y) >>)

(* D^l_{m',m}(R) = sqrt((l+m)!(l-m)!/((l+m')!(l-m')!))                       *)
(*    sum_rho C(l+m',rho) C(l-m',l-rho-m) (-1)^rho                           *)
(*        Ra^(l+m'-rho) conj(Ra)^(l-rho-m) Rb^(rho-m'+m) conj(Rb)^rho        *)
(* DPair gives the value, and the magnitude of the sum of |terms|: the scale *)
(* of the rounding error that any floating-point summation must be allowed.  *)
DPair(t, L, MP, M) ==
    LET lpmp == (L + MP) \div 2
        lmmp == (L - MP) \div 2
        lpm  == (L + M) \div 2
        lmm  == (L - M) \div 2
        mmmp == (M - MP) \div 2
        mpmp == (M + MP) \div 2
        lo   == Max(0, -mmmp)
        hi   == Min(lpmp, lmm)
        s    == DSum(t, lpmp, lmmp, lmm, mmmp, lo, hi, <<BZero, BZero>>)
        q    == FxSqrtRatio(BMul(Fact(lpm), Fact(lmm)), BMul(Fact(lpmp), Fact(lmmp)))
        ph   == CMul(SPow(t.pa, mpmp), SPow(t.pb, mmmp))
    IN  << CScale(FxMul(q, s[1]), ph), FxMul(FxMul(q, s[2]), CMaxAbs(ph)) >>

D(t, L, MP, M) == IF ValidD(L, MP, M) THEN DPair(t, L, MP, M)[1] ELSE CZero

(* The largest error accepted from a binary64 evaluation: 2^-40 of the sum   *)
(* of |terms| plus 10^-12 (rotors within 10^-15 of a pole count as the pole).*)
TolFloor == FxTen(12)
Tol(scale) == BAdd(BShr(scale, 40), TolFloor)
\* the recorded value z is D^l_{m',m} of the rotor with tables t
IsD(z, t, L, MP, M) ==
    IF ValidD(L, MP, M)
    THEN LET p == DPair(t, L, MP, M) IN CIs(z, p[1], Tol(p[2]))
    ELSE CIsZero(z)

\* ------------------------------------------------------------------ SWSH
(* sYlm = (-1)^s sqrt((2l+1)/4pi) D^l_{m,-s}; zero where |m|>l or |s|>l.     *)
\* (2l+1)/(4 pi), square rooted
YNorm(l) == FxSqrt(FxDiv(FxInt(2*l + 1), FxMulInt(FxPi, 4)))
RECURSIVE YNormsUpTo(_, _)
LOCAL YNormsUpTo(l, acc) == IF l > 40 THEN acc ELSE YNormsUpTo(l+1, Append(acc, YNorm(l)))
YNorms == YNormsUpTo(0, <<>>)
ValidY(s, l, m) == l >= 0 /\ Abs(m) <= l /\ Abs(s) <= l
SYPair(t, s, l, m) ==
    LET p == DPair(t, 2*l, 2*m, -2*s)
        d == CScale(YNorms[l+1], p[1])
    IN  << IF s % 2 = 0 THEN d ELSE CNeg(d), FxMul(YNorms[l+1], p[2]) >>
SYlm(t, s, l, m) == IF ValidY(s, l, m) THEN SYPair(t, s, l, m)[1] ELSE CZero
\* the recorded value z is sYlm of the rotor with tables t
IsSY(z, t, s, l, m) ==
    IF ValidY(s, l, m)
    THEN LET p == SYPair(t, s, l, m) IN CIs(z, p[1], Tol(p[2]))
    ELSE CIsZero(z)

\* ----------------------------------------------------------- 3-j symbols
Triangle(j1, j2, j3) == j3 <= j1 + j2 /\ j1 <= j2 + j3 /\ j2 <= j1 + j3
ThreeJNonzero(j1, j2, j3, m1, m2, m3) ==
    /\ j1 >= 0 /\ j2 >= 0 /\ j3 >= 0
    /\ m1 + m2 + m3 = 0 /\ Abs(m1) <= j1 /\ Abs(m2) <= j2 /\ Abs(m3) <= j3
    /\ Triangle(j1, j2, j3)
RECURSIVE RacahSum(_, _, _, _, _, _, _, _)
\* sum_k (-1)^k C(j1+j2-j3, k) C(j1-j2+j3, j1-m1-k) C(-j1+j2+j3, j2+m2-k)
LOCAL RacahSum(j1, j2, j3, m1, m2, k, hi, acc) ==
    IF k > hi THEN acc
    ELSE LET y == BMul(Binom(j1+j2-j3, k), BMul(Binom(j1-j2+j3, j1-m1-k), Binom(-j1+j2+j3, j2+m2-k)))
         IN  RacahSum(j1, j2, j3, m1, m2, k+1, hi, IF k % 2 = 0 THEN BAdd(acc, y) ELSE BSub(acc, y))
(* van der Waerden form:                                                     *)
(*  3j = (-1)^(j1-j2-m3) sqrt( [2j1]![2j2]![2j3]! ... ) written with binomials*)
ThreeJ(j1, j2, j3, m1, m2, m3) ==
    IF ~ThreeJNonzero(j1, j2, j3, m1, m2, m3) THEN FxZero
    ELSE LET s   == RacahSum(j1, j2, j3, m1, m2, Max(0, Max(j2 - j3 - m1, j1 - j3 + m2)),
                             Min(j1 + j2 - j3, Min(j1 - m1, j2 + m2)), BZero)
             num == BMul(BMul(BMul(s, s), BMul(Fact(j1-m1), Fact(j1+m1))),
                         BMul(BMul(Fact(j2-m2), Fact(j2+m2)), BMul(Fact(j3-m3), Fact(j3+m3))))
             den == BMul(BMul(Fact(j1+j2-j3), Fact(j1-j2+j3)), BMul(Fact(-j1+j2+j3), Fact(j1+j2+j3+1)))
             v   == FxSqrtRatio(num, den)
             neg == ((BSgn(s) = -1) # ((j1 - j2 - m3) % 2 # 0))
         IN  IF BSgn(s) = 0 THEN FxZero ELSE IF neg THEN BNeg(v) ELSE v
===============================================================================
