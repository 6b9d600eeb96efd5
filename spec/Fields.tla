--------------------------------- MODULE Fields ---------------------------------
(***************************************************************************)
(* Spin-weighted functions by their mode weights: f = [s, L, v] stands for   *)
(*        sum over |s| <= l <= L, |m| <= l of v[(l,m)] sYlm                  *)
(* with v a sequence of (L+1)^2 complex numbers, (l,m) at l^2+l+m+1.         *)
(* Every operation below is the operation on the function, and comes with    *)
(* the sum of the magnitudes of the terms it adds up ("scale"): what a       *)
(* floating-point evaluation may be wrong by is a small fraction of that.    *)
(* A result is a sequence of pairs <<value, scale>>.                         *)
(***************************************************************************)
EXTENDS Wigner

LMi(l, m) == l*l + l + m + 1
RECURSIVE LMRows(_, _, _)
LOCAL LMRows(l, m, acc) == IF l > 40 THEN acc ELSE IF m > l THEN LMRows(l+1, -l-1, acc)
                           ELSE LMRows(l, m+1, Append(acc, <<l, m>>))
LMTab == LMRows(0, 0, <<>>)

MW(f, l, m) == IF l > f.L \/ Abs(m) > l \/ l < Abs(f.s) THEN CZero ELSE f.v[LMi(l, m)]
Sgn(k, z) == IF k % 2 = 0 THEN z ELSE CNeg(z)
One(z) == <<z, CMaxAbs(z)>>
Two(y, z, w) == <<w, BAdd(CMaxAbs(y), CMaxAbs(z))>>
\* the (l,m) of a field of spin weight s up to L, G(l,m) being a pair <<value, scale>>
Each(s, L, G(_, _)) == [i \in 1..(L+1)*(L+1) |->
                          IF LMTab[i][1] < Abs(s) THEN <<CZero, FxZero>> ELSE G(LMTab[i][1], LMTab[i][2])]
Vals(p) == [i \in 1..Len(p) |-> p[i][1]]
Field(s, L, p) == [s |-> s, L |-> L, v |-> Vals(p)]

\* ------------------------------------------------------------ linear maps
PCopy(f, L) == LET G(l, m) == One(MW(f, l, m)) IN Each(f.s, L, G)
PNeg(f) == LET G(l, m) == One(CNeg(MW(f, l, m))) IN Each(f.s, f.L, G)
PScale(f, c) == LET G(l, m) == One(CMul(c, MW(f, l, m))) IN Each(f.s, f.L, G)
PDivide(f, c) == LET G(l, m) == One(CDiv(MW(f, l, m), c)) IN Each(f.s, f.L, G)
PAdd(f, g) == LET G(l, m) == Two(MW(f, l, m), MW(g, l, m), CAdd(MW(f, l, m), MW(g, l, m))) IN Each(f.s, Max(f.L, g.L), G)
PSub(f, g) == LET G(l, m) == Two(MW(f, l, m), MW(g, l, m), CSub(MW(f, l, m), MW(g, l, m))) IN Each(f.s, Max(f.L, g.L), G)
(* conj(sYlm) = (-1)^(s+m) -sYl-m *)
PConj(f) == LET G(l, m) == One(Sgn(f.s + m, CConj(MW(f, l, -m)))) IN Each(-f.s, f.L, G)
Half(z) == <<FxDivInt(z[1], 2), FxDivInt(z[2], 2)>>
PReal(f) == LET G(l, m) == LET x == MW(f, l, m)  y == Sgn(m, CConj(MW(f, l, -m))) IN Two(x, y, Half(CAdd(x, y))) IN Each(0, f.L, G)
\* (f - conj f) / 2i
PImag(f) == LET G(l, m) == LET x == MW(f, l, m)  y == Sgn(m, CConj(MW(f, l, -m))) IN Two(x, y, CNeg(CMulI(Half(CSub(x, y))))) IN Each(0, f.L, G)
RECURSIVE SumSq(_, _)
SumSq(v, i) == IF i > Len(v) THEN FxZero ELSE BAdd(CNormSq(v[i]), SumSq(v, i+1))
NormOf(f) == FxSqrt(SumSq(PCopy(f, f.L), 1))
NormVal(f) == LET q == PCopy(f, f.L) IN FxSqrt(SumSq(Vals(q), 1))

\* ------------------------------------------------------ derivative operators
LOCAL Rt(n) == FxSqrt(FxInt(n))
Deriv(op, f) ==
    LET s == f.s
        to == CASE op \in {"Rp", "ethbar"} -> s - 1 [] op \in {"Rm", "eth"} -> s + 1 [] OTHER -> s
        G(l, m) ==
          CASE op \in {"L2", "R2"} -> One(CScaleInt(l*(l+1), MW(f, l, m)))
            [] op = "Lz" -> One(CScaleInt(m, MW(f, l, m)))
            [] op = "Lp" -> IF m = -l THEN <<CZero, FxZero>> ELSE One(CScale(Rt((l+m)*(l-m+1)), MW(f, l, m-1)))
            [] op = "Lm" -> IF m = l THEN <<CZero, FxZero>> ELSE One(CScale(Rt((l-m)*(l+m+1)), MW(f, l, m+1)))
            [] op = "Rz" -> One(CScaleInt(-s, MW(f, l, m)))
            [] op = "Rp" -> IF l < Abs(s) THEN <<CZero, FxZero>> ELSE One(CScale(Rt((l+s)*(l-s+1)), MW(f, l, m)))
            [] op = "ethbar" -> IF l < Abs(s) THEN <<CZero, FxZero>> ELSE One(CNeg(CScale(Rt((l+s)*(l-s+1)), MW(f, l, m))))
            [] op \in {"Rm", "eth"} -> IF l < Abs(s) THEN <<CZero, FxZero>> ELSE One(CScale(Rt((l-s)*(l+s+1)), MW(f, l, m)))
    IN  Each(to, f.L, G)

\* ---------------------------------------------------------------- products
(* s1Yl1m1 s2Yl2m2 = sum over l3 of C(l1,m1,l2,m2,l3) s3Yl3m3,                *)
(*   C = (-1)^(l1+l2+l3+s3+m3) sqrt((2l1+1)(2l2+1)(2l3+1)/4pi)                *)
(*       (l1 l2 l3; s1 s2 -s3) (l1 l2 l3; m1 m2 -m3)                          *)
PairCoef(s1, l1, m1, s2, l2, m2, l3) ==
    LET a == ThreeJ(l1, l2, l3, m1, m2, -(m1+m2))
        b == ThreeJ(l1, l2, l3, s1, s2, -(s1+s2))
        n == FxSqrt(FxDiv(FxInt((2*l1+1)*(2*l2+1)*(2*l3+1)), FxMulInt(FxPi, 4)))
        c == FxMul(n, FxMul(a, b))
    IN  IF BSgn(a) = 0 \/ BSgn(b) = 0 THEN FxZero
        ELSE IF (l1 + l2 + l3 + s1 + s2 + m1 + m2) % 2 = 0 THEN c ELSE BNeg(c)
NonZero(f) == {i \in 1..Len(f.v) : LMTab[i][1] >= Abs(f.s) /\ f.v[i] # CZero}
RECURSIVE MulSum(_, _, _, _, _, _)
\* the contributions of the modes in S (positions in f) to mode (l3, m3)
LOCAL MulSum(f, g, l3, m3, S, acc) ==
    IF S = {} THEN acc
    ELSE LET i  == CHOOSE j \in S : TRUE
             l1 == LMTab[i][1]  m1 == LMTab[i][2]  m2 == m3 - m1
             Q  == {l2 \in Max(Max(Abs(m2), Abs(g.s)), Abs(l1 - l3))..Min(g.L, l1 + l3) : g.v[LMi(l2, m2)] # CZero}
             Inner[R \in SUBSET Q] ==
                IF R = {} THEN <<CZero, FxZero>>
                ELSE LET l2 == CHOOSE x \in R : TRUE
                         r  == Inner[R \ {l2}]
                         t  == CScale(PairCoef(f.s, l1, m1, g.s, l2, m2, l3), CMul(f.v[i], g.v[LMi(l2, m2)]))
                     IN  <<CAdd(r[1], t), BAdd(r[2], CMaxAbs(t))>>
             c == Inner[Q]
         IN  MulSum(f, g, l3, m3, S \ {i}, <<CAdd(acc[1], c[1]), BAdd(acc[2], c[2])>>)
RECURSIVE MaxAbs(_, _, _)
MaxAbs(v, i, acc) == IF i > Len(v) THEN acc ELSE MaxAbs(v, i+1, FxMax(acc, CMaxAbs(v[i])))
(* beyond the rounding of the sum, a computed 3-j symbol may be off by 2^-45   *)
(* also where it vanishes                                                      *)
PMul(f, g, L) ==
    LET S == NonZero(f)
        fl == BShr(FxMul(MaxAbs(f.v, 1, FxZero), MaxAbs(g.v, 1, FxZero)), 4)
        G(l, m) == LET r == MulSum(f, g, l, m, S, <<CZero, FxZero>>) IN <<r[1], BAdd(r[2], fl)>>
    IN  Each(f.s + g.s, L, G)

\* -------------------------------------------------------------- evaluation
RECURSIVE EvalFrom(_, _, _, _)
LOCAL EvalFrom(f, t, i, acc) ==
    IF i > Len(f.v) THEN acc
    ELSE LET l == LMTab[i][1]  m == LMTab[i][2]
         IN  IF l < Abs(f.s) \/ f.v[i] = CZero THEN EvalFrom(f, t, i+1, acc)
             ELSE LET p == SYPair(t, f.s, l, m)
                  IN  EvalFrom(f, t, i+1, << CAdd(acc[1], CMul(f.v[i], p[1])),
                                             BAdd(acc[2], FxMul(BShl(CMaxAbs(f.v[i]), 1), p[2])) >>)
\* the value at the rotor with tables t, and the scale of its error
PEval(f, t) == EvalFrom(f, t, 1, <<CZero, FxZero>>)
================================================================================
