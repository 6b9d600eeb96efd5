------------------------------- MODULE IndexApi -------------------------------
(***************************************************************************)
(* The index functions and the coefficient accessors.  No state.            *)
(*                                                                         *)
(*  range  k lo hi x rows     rows of LM_range, LMpM_range, ... (Half: all  *)
(*                            numbers doubled)                              *)
(*  index  k lo hi r          the index function over the enumeration lo..hi*)
(*  size   k lo hi r          the total size                                *)
(*  deduce lo n x r           LM_deduce_ell_max(n, lo)                      *)
(*  big    fn a r             a size or index with large arguments          *)
(*  wedgeify c r              representative of an index in the H wedge     *)
(*  coef   fn L r             all values of an accessor for one n or (2l)   *)
(***************************************************************************)
EXTENDS Index, Wigner

LOCAL V(st, b, why) == [v |-> IF b THEN "ok" ELSE why, st |-> st]
IInit == 0

BInt2(f) == BScaled(f[1], f[2], f[3], 0)     \* a recorded integer (as a binary64)
BExp(fn, a) ==
    LET l == BInt(a[1])  l2 == BMul(l, l)  l3 == BMul(l2, l)
        lo == BInt(a[Len(a)])  lo2 == BMul(lo, lo)  lo3 == BMul(lo2, lo)
        T(n, x) == BMul(BInt(n), x)
    IN  CASE fn = "nm_index" -> BAdd(BAdd(l2, l), BInt(a[2]))
          [] fn = "nabsm_index" -> BAdd(BDiv(BAdd(l2, l), BInt(2)), BInt(a[2]))
          [] fn = "nmpm_index" -> BAdd(BDiv(BSub(T(4, l3), l), BInt(3)), BAdd(BMul(BAdd(l, BInt(a[2])), BAdd(T(2, l), BOne)), BAdd(l, BInt(a[3]))))
          [] fn = "LM_index" -> BSub(BAdd(BAdd(l2, l), BInt(a[2])), lo2)
          [] fn = "LM_total_size" -> BAdd(BSub(BAdd(l2, T(2, l)), lo2), BOne)
          [] fn = "LMpM_index" ->
               BAdd(BDiv(BAdd(BSub(BAdd(T(4, l3), lo), BAdd(l, T(4, lo3))), BZero), BInt(3)),
                    BAdd(BMul(BAdd(l, BInt(a[2])), BAdd(T(2, l), BOne)), BAdd(l, BInt(a[3]))))
          [] fn = "LMpM_total_size" ->
               BDiv(BAdd(BSub(BAdd(BAdd(T(4, l3), T(12, l2)), T(11, l)), BSub(T(4, lo3), lo)), BInt(3)), BInt(3))

RECURSIVE ISqrtUp(_, _)
ISqrtUp(n, s) == IF s*s >= n THEN s ELSE ISqrtUp(n, s+1)
\* LM_deduce_ell_max: n + lo^2 = (hi+1)^2 with hi >= lo - 1
DeduceOk(e) ==
    LET t == e.n + e.lo*e.lo  s == ISqrtUp(t, 0)
    IN  IF s*s = t THEN e.x = "" /\ e.r = s - 1 ELSE e.x = "ValueError"
\* large: the driver states the candidate root s; n = s^2 - lo^2 + d
DeduceBigOk(e) == IF e.d = 0 THEN e.x = "" /\ e.r = e.s - 1 ELSE e.x = "ValueError"

\* ------------------------------------------------------------ coefficients
Rel(v) == BAdd(BShr(BAbs(v), 50), BOne)
Wcoef(L, MP, M) ==
    LET lpmp == (L + MP) \div 2  lmmp == (L - MP) \div 2  lpm == (L + M) \div 2  lmm == (L - M) \div 2
        rho == Max(0, (MP - M) \div 2)
    IN  BMul(FxSqrtRatio(BMul(Fact(lpm), Fact(lmm)), BMul(Fact(lpmp), Fact(lmmp))),
             BMul(Bin(lpmp, rho), Bin(lmmp, lmm - rho)))
Coef(fn, L, i) ==
    CASE fn = "factorial" -> BShl(Fact(L), PREC)
      [] fn = "binomial" -> BShl(Bin(L, i), PREC)
      [] fn = "ladder" -> LET M == 2*i - L IN FxSqrt(FxRat(L*(L+2) - M*(M+2), 4))
      [] fn = "Wigner" -> Wcoef(L, 2*(i \div (L+1)) - L, 2*(i % (L+1)) - L)
CoefLen(fn, L) == CASE fn = "factorial" -> 1 [] fn = "binomial" -> L+1 [] fn = "ladder" -> L+1 [] fn = "Wigner" -> (L+1)*(L+1)

IStep(st, e) ==
    CASE e.op = "range" -> V(st, e.x = "" /\ IsWalk(e.k, e.rows, e.lo, e.hi) /\ Len(e.rows) = Count(e.k, e.lo, e.hi),
                             "not the standard enumeration")
      [] e.op = "index" -> V(st, /\ e.n = Count(e.k, 0, e.hi) - Count(e.k, 0, e.lo - 1)
                                 /\ \A i \in 1..Len(e.r) : e.r[i] = e.off + i - 1, "index is not the position in the enumeration")
      [] e.op = "size" -> V(st, e.r = Count(e.k, e.lo, e.hi), "wrong total size")
      [] e.op = "intonly" -> V(st, e.x = "ValueError", "half-integer range accepted")
      [] e.op = "deduce" -> V(st, DeduceOk(e), "wrong ell_max deduced")
      [] e.op = "deducebig" -> V(st, DeduceBigOk(e), "wrong ell_max deduced")
      [] e.op = "big" -> V(st, BCmp(BInt2(e.r), BExp(e.fn, e.a)) = 0, "wrong value")
      [] e.op = "wedgeify" -> V(st, InWedge(e.r) /\ e.r \in Orbit(e.c), "not a representative in the wedge")
      [] e.op = "coef" -> V(st, /\ e.n = CoefLen(e.fn, e.L)
                                /\ \A i \in 1..Len(e.r) : LET v == Coef(e.fn, e.L, e.off + i - 1) IN FxIs(e.r[i], v, Rel(v)),
                            "wrong coefficient")
================================================================================
