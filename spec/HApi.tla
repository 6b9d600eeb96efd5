---------------------------------- MODULE HApi ----------------------------------
(***************************************************************************)
(* HCalculator objects (both implementations), their workspaces, and        *)
(* complex_powers with its preallocated output.                             *)
(*                                                                         *)
(* State: calculators id -> [impl, nmax]; workspaces id -> shape of the     *)
(* angles they were made for.  What a call returns depends on the angles    *)
(* alone, neither on the workspace's former content nor on earlier calls.   *)
(*                                                                         *)
(*  hnew  id impl nmax x       impl = "wedge" or "full"                     *)
(*  hws   id ws sh x           calculator.workspace(angles of shape sh)     *)
(*  hcall id ws (0: none) c s (<<>>: not given) sh x rsh r                  *)
(*  hkept r was            the result of an earlier call without a supplied *)
(*                         workspace, looked at again                       *)
(*  qang  q x r own          quaternion_angles(q): exp(i beta),              *)
(*                           exp(i(alpha+gamma)/2), exp(i(alpha-gamma)/2)    *)
(*  pow   z M zsh pre x rsh r own                                           *)
(***************************************************************************)
EXTENDS Index, Wigner

LOCAL V(st, v) == [v |-> v, st |-> st]
RECURSIVE Prod(_, _)
Prod(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * Prod(s, i+1)

LOCAL Eps(k) == IF k > 0 /\ k % 2 # 0 THEN -1 ELSE 1
(* Rotor tables of exp(beta y/2), from cos(beta) and sin(beta): the half     *)
(* angle comes from whichever of them determines it better.                  *)
BetaTables(c, s, n) ==
    LET one == FxOne
        ca2 == IF BSgn(c) >= 0 THEN FxDivInt(FxAdd(one, c), 2) ELSE FxDiv(FxMul(s, s), FxMulInt(FxSub(one, c), 2))
        sb2 == IF BSgn(c) >= 0 THEN FxDiv(FxMul(s, s), FxMulInt(FxAdd(one, c), 2)) ELSE FxDivInt(FxSub(one, c), 2)
        a == FxSqrt(ca2)  b == FxSqrt(sb2)
    IN  RotorTables(CReal(a), CReal(IF BSgn(s) < 0 THEN BNeg(b) ELSE b), n)
(* d^l_{n,m}(beta) = D^l_{n,m}(exp(beta y/2)) = eps(n) eps(-m) H^l_{n,m}(beta) *)
H(t, c) == LET d == D(t, 2*c[1], 2*c[2], 2*c[3])[1]
           IN  IF Eps(c[2]) * Eps(-c[3]) = 1 THEN d ELSE BNeg(d)

KindOf(impl) == IF impl = "wedge" THEN "Wedge" ELSE "LMpM"
RECURSIVE Rows(_, _, _, _)
LOCAL Rows(k, c, hi, acc) == IF c = Last(k, hi) THEN Append(acc, c) ELSE Rows(k, Succ(k, c), hi, Append(acc, c))
RECURSIVE Tables(_, _, _, _, _)
LOCAL Tables(c, s, n, i, acc) ==
    IF i > Len(c) THEN acc
    ELSE LET cc == FxOf(c[i])
             ss == IF s = <<>> THEN FxSqrt(FxSub(FxOne, FxMul(cc, cc))) ELSE FxOf(s[i])
         IN  Tables(c, s, n, i+1, Append(acc, BetaTables(cc, ss, n)))
TolH == FxTen(11)
InRange(c) == \A i \in 1..Len(c) : BLeq(BAbs(FxOf(c[i])), FxOne)

StepHCall(st, e) ==
    LET cal == st.calc[e.id]  k == KindOf(cal.impl)
    IN  IF ~InRange(e.c) \/ (e.s # <<>> /\ e.ssh # e.sh)
        THEN V(st, IF e.x = "ValueError" THEN "ok" ELSE "cosine out of range, or shapes differ, but no ValueError: " \o e.x)
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE LET n == Count(k, 0, cal.nmax)  na == Len(e.c)
                 ts == Tables(e.c, e.s, 2*cal.nmax + 1, 1, <<>>)
                 rows == Rows(k, First(k, 0), cal.nmax, <<>>)
                 at(j) == rows[((j - 1) \div na) + 1]
                 bad == {j \in 1..Len(e.r) : ~FxIs(e.r[j], H(ts[((j + e.off - 1) % na) + 1], at(j + e.off)), TolH)}
             IN  IF e.rsh # <<n>> \o e.sh \/ e.n # n*na THEN V(st, "shape " \o ToString(e.rsh))
                 ELSE V(st, IF bad = {} THEN "ok" ELSE "wrong H for (l,m',m)=" \o ToString(at(e.off + CHOOSE j \in bad : TRUE)))

\* ---------------------------------------------------------- complex powers
RECURSIVE CPower(_, _)
CPower(z, k) == IF k = 0 THEN COne
                ELSE IF k % 2 = 1 THEN CMul(z, CPower(z, k - 1))
                ELSE LET w == CPower(z, k \div 2) IN CMul(w, w)
StepPow(st, e) ==
    IF e.x # "" THEN V(st, "raised " \o e.x)
    ELSE IF e.rsh # Append(e.zsh, e.M + 1) THEN V(st, "shape " \o ToString(e.rsh))
    ELSE IF e.pre = 1 /\ e.own # 1 THEN V(st, "the preallocated array does not hold the result")
    ELSE LET w == e.M + 1
             lo == (e.off \div w) + 1
             hi == ((e.off + Len(e.r) - 1) \div w) + 1
             ps == TLCEval([i \in lo..hi |-> IF e.M <= 64 THEN CPowers(COf(e.z[i]), e.M) ELSE <<>>])
             at(i, k) == IF e.M <= 64 THEN ps[i][k+1] ELSE CPower(COf(e.z[i]), k)
             bad == {j \in 1..Len(e.r) : LET i == ((j + e.off - 1) \div w) + 1  k == (j + e.off - 1) % w
                                         IN  ~CIs(e.r[j], at(i, k), FxMulInt(FxTen(14), 5*(k + 2)))}
         IN  V(st, IF bad = {} THEN "ok" ELSE "wrong power, element " \o ToString(e.off + CHOOSE j \in bad : TRUE))

\* --------------------------------------------------- phases of a quaternion
(* Off the poles, for any length |q| > 0: with q = Ra + Rb.j,                 *)
(*   exp(i beta) = (|Ra|^2 - |Rb|^2 + 2i |Ra||Rb|) / |q|^2,                    *)
(*   exp(i(alpha+gamma)/2) = Ra/|Ra|,  exp(i(alpha-gamma)/2) = conj(Rb)/|Rb|   *)
Unit(z) == LET n == FxSqrt(CNormSq(z)) IN <<FxDiv(z[1], n), FxDiv(z[2], n)>>
StepQAng(st, e) ==
    LET \* the angles do not depend on the length, so that a power of 2 may be divided out, whatever its size
        nz == {i \in 1..4 : ~IsZero(e.q[i])}
        k  == 53 + (CHOOSE x \in {e.q[i][1] : i \in nz} : \A i \in nz : e.q[i][1] <= x)
        Q(i) == IF i \in nz THEN FxOf(<<e.q[i][1] - k, e.q[i][2], e.q[i][3]>>) ELSE FxOf(e.q[i])
        ra == <<Q(1), Q(4)>>  rb == <<Q(3), Q(2)>>
        na == CNormSq(ra)  nb == CNormSq(rb)  n == FxAdd(na, nb)
        zb == <<FxDiv(FxSub(na, nb), n), FxDiv(FxMulInt(FxMul(FxSqrt(na), FxSqrt(nb)), 2), n)>>
        T  == FxTen(14)
    IN  V(st, IF e.x # "" THEN "raised " \o e.x
              ELSE IF e.own # 1 THEN "changed its argument"
              ELSE IF Len(e.r) # 3 THEN "not three numbers"
              ELSE IF ~CIs(e.r[1], zb, T) THEN "wrong exp(i beta)"
              ELSE IF ~CIs(e.r[2], Unit(ra), T) THEN "wrong exp(i(alpha+gamma)/2)"
              ELSE IF ~CIs(e.r[3], CConj(Unit(rb)), T) THEN "wrong exp(i(alpha-gamma)/2)" ELSE "ok")

HInit == [calc |-> [c \in {} |-> 0], ws |-> [c \in {} |-> 0]]
HStep(st, e) ==
    CASE e.op = "hnew" ->
           IF e.nmax < 0 THEN V(st, IF e.x = "ValueError" THEN "ok" ELSE "n_max < 0 did not raise ValueError: " \o e.x)
           ELSE [v |-> IF e.x = "" THEN "ok" ELSE "raised " \o e.x,
                 st |-> [st EXCEPT !.calc = [c \in DOMAIN @ \cup {e.id} |-> IF c = e.id THEN [impl |-> e.impl, nmax |-> e.nmax] ELSE @[c]]]]
      [] e.op = "hws" -> [v |-> IF e.x = "" THEN "ok" ELSE "raised " \o e.x,
                          st |-> [st EXCEPT !.ws = [c \in DOMAIN @ \cup {e.ws} |-> IF c = e.ws THEN e.sh ELSE @[c]]]]
      [] e.op = "hcall" -> StepHCall(st, e)
      [] e.op = "hkept" -> V(st, IF e.r = e.was THEN "ok" ELSE "the result of an earlier call changed")
      [] e.op = "qang" -> StepQAng(st, e)
      [] e.op = "pow" -> StepPow(st, e)
=================================================================================
