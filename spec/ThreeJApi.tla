------------------------------- MODULE ThreeJApi -------------------------------
(***************************************************************************)
(* Wigner3j, clebsch_gordan and Wigner3jCalculator objects.                 *)
(*                                                                         *)
(* State: the calculators in existence: id -> <<j2_max, j3_max>>.  What a   *)
(* calculator answers does not depend on what it was asked before.          *)
(*                                                                         *)
(*  w3j  j |-> <<j1,j2,j3>>, ms |-> list of <<m1,m2,m3>>, r |-> values      *)
(*  cg   j |-> <<j1,j2,j3>>, ms |-> list of <<m1,m2,m3>>, r |-> values      *)
(*  new  id, a, b, x, sz     Wigner3jCalculator(a, b), its .size            *)
(*  calc id, j2, j3, m2, m3, x, r   calculate(...), the returned array      *)
(*  kept id, r, was          a copy of an earlier answer, looked at again   *)
(***************************************************************************)
EXTENDS Wigner

(* 10^-10 of the value and 10^-11 absolutely, up to j of about 100; ten times *)
(* more beyond                                                                *)
TolJ(v, big) == IF big > 120 THEN BAdd(FxMul(BAbs(v), FxTen(8)), FxTen(10)) ELSE BAdd(FxMul(BAbs(v), FxTen(10)), FxTen(12))
Is3J(f, j1, j2, j3, m1, m2, m3) ==
    IF ThreeJNonzero(j1, j2, j3, m1, m2, m3)
    THEN LET v == ThreeJ(j1, j2, j3, m1, m2, m3) IN FxIs(f, v, TolJ(v, Max(j1, Max(j2, j3))))
    ELSE IsZero(f)
(* <j1 m1 j2 m2 | j3 m3> = (-1)^(j1-j2+m3) sqrt(2 j3 + 1) (j1 j2 j3; m1 m2 -m3) *)
IsCG(f, j1, j2, j3, m1, m2, m3) ==
    IF ThreeJNonzero(j1, j2, j3, m1, m2, -m3)
    THEN LET w == FxMul(FxSqrt(FxInt(2*j3 + 1)), ThreeJ(j1, j2, j3, m1, m2, -m3))
             v == IF (j1 - j2 + m3) % 2 = 0 THEN w ELSE BNeg(w)
         IN  FxIs(f, v, FxMulInt(TolJ(v, Max(j1, Max(j2, j3))), 2*j3 + 1))
    ELSE IsZero(f)

JInit == [c \in {} |-> <<>>]
LOCAL V(st, b, why) == [v |-> IF b THEN "ok" ELSE why, st |-> st]
LOCAL Bads(S) == ToString(CHOOSE k \in S : \A i \in S : k <= i)

JStep(st, e) ==
    CASE e.op = "w3j" ->
           LET bad == {k \in 1..Len(e.r) : LET m == e.ms[k] IN ~Is3J(e.r[k], e.j[1], e.j[2], e.j[3], m[1], m[2], m[3])}
           IN  V(st, Len(e.r) = Len(e.ms) /\ bad = {}, "wrong 3-j symbol " \o (IF bad = {} THEN "" ELSE ToString(e.ms[CHOOSE k \in bad : TRUE])))
      [] e.op = "cg" ->
           LET bad == {k \in 1..Len(e.r) : LET m == e.ms[k] IN ~IsCG(e.r[k], e.j[1], e.j[2], e.j[3], m[1], m[2], m[3])}
           IN  V(st, Len(e.r) = Len(e.ms) /\ bad = {}, "wrong Clebsch-Gordan coefficient " \o (IF bad = {} THEN "" ELSE ToString(e.ms[CHOOSE k \in bad : TRUE])))
      [] e.op = "new" -> [v |-> IF e.x = "" /\ e.sz >= e.a + e.b + 1 THEN "ok" ELSE "calculator not built",
                          st |-> [c \in DOMAIN st \cup {e.id} |-> IF c = e.id THEN <<e.a, e.b>> ELSE st[c]]]
      [] e.op = "calc" ->
           IF e.x # "" THEN V(st, FALSE, "raised " \o e.x)
           ELSE IF Len(e.r) < st[e.id][1] + st[e.id][2] + 1 THEN V(st, FALSE, "too few values")
           ELSE LET bad == {k \in 1..Len(e.r) : ~Is3J(e.r[k], k-1, e.j2, e.j3, -(e.m2 + e.m3), e.m2, e.m3)}
                IN  V(st, bad = {}, "wrong value for j1+1=" \o (IF bad = {} THEN "" ELSE Bads(bad)))
      [] e.op = "kept" -> V(st, e.r = e.was, "a copied answer changed")
================================================================================
