------------------------------- MODULE WignerApi -------------------------------
(***************************************************************************)
(* The Wigner-D and SWSH functions as a state machine.  The only state is   *)
(* the flag sf.error_on_bad_indices; everything else is a function of the   *)
(* arguments.                                                               *)
(*                                                                         *)
(* Events                                                                   *)
(*   [op |-> "flag", v |-> 0 or 1]                                          *)
(*   [op |-> "D", rf |-> rotor form, rot |-> rotor data, xf |-> index form, *)
(*    ix |-> indices, x |-> exception name or "", sc |-> 1 if the result is *)
(*    a scalar, sh |-> its shape, r |-> its elements]                       *)
(*   [op |-> "Dm", q |-> rotor, lo, hi |-> twice ell_min, ell_max, x, sh, r]*)
(*   [op |-> "Y" / "Yg", ...]                                               *)
(***************************************************************************)
EXTENDS Wigner, Sequences

ELLMAX == 32

RECURSIVE SeqProd(_, _)
SeqProd(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * SeqProd(s, i+1)
Size(sh) == SeqProd(sh, 1)

\* a recorded quaternion <<w, x, y, z>> has Ra = w + iz, Rb = y + ix
QTables(q, n) == RotorTables(<<FxOf(q[1]), FxOf(q[4])>>, <<FxOf(q[3]), FxOf(q[2])>>, n)
(* Euler angles (alpha, beta, gamma): exp(alpha z/2) exp(beta y/2) exp(gamma z/2) *)
EulerTables(a, n) ==
    LET al == FxDivInt(FxOf(a[1]), 2)  be == FxDivInt(FxOf(a[2]), 2)  ga == FxDivInt(FxOf(a[3]), 2)
    IN  RotorTables(CScale(FxCos(be), CCis(FxAdd(al, ga))), CScale(FxSin(be), CCis(FxSub(ga, al))), n)
RECURSIVE EachTables(_, _, _, _)
EachTables(qs, n, i, acc) == IF i > Len(qs) THEN acc ELSE EachTables(qs, n, i+1, Append(acc, QTables(qs[i], n)))
\* the rotors of a call, as a sequence of power tables
Rotors(rf, rot, n) ==
    CASE rf = "q" -> <<QTables(rot, n)>>
      [] rf = "ab" -> <<RotorTables(COf(rot[1]), COf(rot[2]), n)>>
      [] rf = "euler" -> <<EulerTables(rot, n)>>
      [] rf = "qs" -> EachTables(rot, n, 1, <<>>)

\* -------------------------------------------------------------- indices
(* The elements of one (doubled) ell come with m' slowest, as in             *)
(* [[ell,m',m] for m' in -ell..ell for m in -ell..ell].                      *)
RECURSIVE BlocksSize(_, _), BlocksAt(_, _, _)
BlocksSize(Ls, i) == IF i > Len(Ls) THEN 0 ELSE (IF Ls[i] < 0 THEN 0 ELSE (Ls[i]+1)*(Ls[i]+1)) + BlocksSize(Ls, i+1)
\* index of element k (from 1) of the concatenated blocks of Ls[i], Ls[i+1], ...
BlocksAt(Ls, i, k) ==
    LET L == Ls[i]  n == IF L < 0 THEN 0 ELSE (L+1)*(L+1)
    IN  IF k > n THEN BlocksAt(Ls, i+1, k - n)
        ELSE << L, 2*((k-1) \div (L+1)) - L, 2*((k-1) % (L+1)) - L >>
Evens(lo, hi) == [i \in 1..((hi - lo) \div 2 + 1) |-> lo + 2*(i-1)]

IndexCount(xf, ix) == CASE xf = "lmm" -> 1 [] xf = "list" -> Len(ix) [] xf = "ell" -> BlocksSize(<<ix>>, 1)
                        [] xf = "ells" -> BlocksSize(ix, 1)
IndexAt(xf, ix, k) == CASE xf = "lmm" -> ix [] xf = "list" -> ix[k] [] xf = "ell" -> BlocksAt(<<ix>>, 1, k)
                        [] xf = "ells" -> BlocksAt(ix, 1, k)
IndexOk(i) == ValidD(i[1], i[2], i[3]) /\ i[1] <= 2*ELLMAX
\* ell values for which no element exists are invalid, too
EllOk(L) == L >= 0 /\ L <= 2*ELLMAX
CallOk(xf, ix) == CASE xf = "lmm" -> IndexOk(ix) [] xf = "list" -> \A k \in 1..Len(ix) : IndexOk(ix[k])
                    [] xf = "ell" -> EllOk(ix) [] xf = "ells" -> \A k \in 1..Len(ix) : EllOk(ix[k])
LOCAL MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MaxEll(xf, ix) == CASE xf = "lmm" -> ix[1] [] xf = "list" -> MaxSet({ix[k][1] : k \in 1..Len(ix)} \cup {0})
                    [] xf = "ell" -> ix [] xf = "ells" -> MaxSet({ix[k] : k \in 1..Len(ix)} \cup {0})

V(st, v) == [v |-> v, st |-> st]
\* first k in 1..n for which P(k) fails; 0 if none
FirstBad(n, P(_)) == LET S == {k \in 1..n : ~P(k)} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
(* Long results arrive in parts: e.n elements in all, of which e.r are those *)
(* from e.off + 1 on.                                                        *)

StepD(st, e) ==
    LET ok == CallOk(e.xf, e.ix)
    IN  IF ~ok /\ st.flag = 1
        THEN V(st, IF e.x = "ValueError" THEN "ok"
                   ELSE "invalid indices did not raise ValueError: " \o e.x)
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE LET ts == Rotors(e.rf, e.rot, Min(Max(MaxEll(e.xf, e.ix), 0), 2*ELLMAX) + 1)
                 sh == IF e.rf = "qs" THEN e.qsh ELSE IF e.xf = "lmm" \/ (e.xf = "ell" /\ e.ix = 0) THEN <<>>
                       ELSE <<IndexCount(e.xf, e.ix)>>
                 good(k) == IF e.rf = "qs"
                            THEN IF ok THEN IsD(e.r[k], ts[k + e.off], e.ix[1], e.ix[2], e.ix[3]) ELSE CIsZero(e.r[k])
                            ELSE LET i == IndexAt(e.xf, e.ix, k + e.off)
                                 IN  IF IndexOk(i) THEN IsD(e.r[k], ts[1], i[1], i[2], i[3]) ELSE CIsZero(e.r[k])
             IN  IF e.sh # sh \/ e.n # Size(sh) THEN V(st, "shape " \o ToString(e.sh) \o " instead of " \o ToString(sh))
                 ELSE LET k == FirstBad(Len(e.r), good)
                      IN  V(st, IF k = 0 THEN "ok" ELSE "wrong value of element " \o ToString(k + e.off))

StepDm(st, e) ==
    LET ok == e.lo % 2 = 0 /\ e.hi % 2 = 0 /\ e.hi <= 2*ELLMAX
    IN  IF ~ok THEN V(st, IF e.x = "ValueError" THEN "ok" ELSE "ell outside the domain did not raise ValueError: " \o e.x)
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE LET Ls  == Evens(e.lo, e.hi)
                 n   == BlocksSize(Ls, 1)
                 t   == QTables(e.q, e.hi + 1)
                 good(k) == LET i == BlocksAt(Ls, 1, k + e.off) IN IsD(e.r[k], t, i[1], i[2], i[3])
             IN  IF e.sh # <<n>> \/ e.n # n THEN V(st, "size " \o ToString(e.sh) \o " instead of " \o ToString(n))
                 ELSE LET k == FirstBad(Len(e.r), good)
                      IN  V(st, IF k = 0 THEN "ok" ELSE "wrong value of element [2l,2m',2m]=" \o ToString(BlocksAt(Ls, 1, k + e.off)))

RECURSIVE LMSeq(_, _, _, _)
\* (l, m) pairs in standard order
LMSeq(l, m, hi, acc) == IF l > hi THEN acc
                        ELSE IF m > l THEN LMSeq(l+1, -l-1, hi, acc)
                        ELSE LMSeq(l, m+1, hi, Append(acc, <<l, m>>))
LMRange(lo, hi) == LMSeq(lo, -lo, hi, <<>>)

\* SWSH(q, s, list of (l,m)) and SWSH(array of q, s, (l,m))
StepY(st, e) ==
    LET lst == IF e.rf = "q" THEN e.ix ELSE <<e.ix>>
        ok  == \A k \in 1..Len(lst) : lst[k][1] <= ELLMAX
    IN  IF ~ok THEN V(st, IF e.x = "ValueError" THEN "ok" ELSE "ell > ell_max did not raise ValueError: " \o e.x)
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE LET ts == Rotors(e.rf, e.rot, 2*MaxEll("list", lst) + 1)
                 sh == IF e.rf = "qs" THEN e.qsh ELSE <<Len(lst)>>
                 good(k) == IF e.rf = "qs" THEN IsSY(e.r[k], ts[k + e.off], e.s, e.ix[1], e.ix[2])
                            ELSE IsSY(e.r[k], ts[1], e.s, lst[k + e.off][1], lst[k + e.off][2])
             IN  IF e.sh # sh \/ e.n # Size(sh) THEN V(st, "shape " \o ToString(e.sh) \o " instead of " \o ToString(sh))
                 ELSE LET k == FirstBad(Len(e.r), good)
                      IN  V(st, IF k = 0 THEN "ok" ELSE "wrong value of element " \o ToString(k + e.off))

\* SWSH_grid(array of q, s, ell_max): shape + (number of (l,m)), row-major
StepYg(st, e) ==
    IF e.lmax > ELLMAX THEN V(st, IF e.x = "ValueError" THEN "ok" ELSE "ell > ell_max did not raise ValueError: " \o e.x)
    ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
    ELSE LET lst == LMRange(0, e.lmax)
             ts  == Rotors("qs", e.rot, 2*e.lmax + 1)
             n   == Len(lst)
             good(k) == LET i == ((k+e.off-1) \div n) + 1  j == ((k+e.off-1) % n) + 1
                        IN  IsSY(e.r[k], ts[i], e.s, lst[j][1], lst[j][2])
         IN  IF e.sh # Append(e.qsh, n) \/ e.n # Len(e.rot) * n THEN V(st, "shape " \o ToString(e.sh))
             ELSE LET k == FirstBad(Len(e.r), good)
                  IN  V(st, IF k = 0 THEN "ok" ELSE "wrong value of element " \o ToString(k + e.off))

WInit == [flag |-> 1]
WStep(st, e) == CASE e.op = "flag" -> V([flag |-> e.v], "ok")
                  [] e.op = "D" -> StepD(st, e)
                  [] e.op = "Dm" -> StepDm(st, e)
                  [] e.op = "Y" -> StepY(st, e)
                  [] e.op = "Yg" -> StepYg(st, e)
===============================================================================
