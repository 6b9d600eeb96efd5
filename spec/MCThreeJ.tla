------------------------------- MODULE MCThreeJ -------------------------------
(***************************************************************************)
(* Laws of the 3-j symbols as specified (closed form), and the calculator   *)
(* as a machine: an object with a workspace of j2_max + j3_max + 1 entries   *)
(* is asked for (j2,j3,m2,m3) again and again.  Every reachable request      *)
(* (ordered pair of requests: state = the previous one) is a plan for the    *)
(* conformance run.                                                          *)
(***************************************************************************)
EXTENDS ThreeJApi, Json
CONSTANTS J, Plans

Eps == FxTen(40)
Reqs == {q \in (0..J) \X (0..J) \X (-J-1..J+1) \X (-J-1..J+1) : Abs(q[3]) <= q[1] + 1 /\ Abs(q[4]) <= q[2] + 1}

VARIABLES prev, cur
vars == <<prev, cur>>
None == <<>>
Init == prev = None /\ cur \in Reqs
Next == /\ prev = None /\ Plans
        /\ prev' = cur /\ cur' \in Reqs
        /\ PrintT("PLAN " \o ToJson(<<cur, cur'>>))
Spec == Init /\ [][Next]_vars

T(j1, j2, j3, m1, m2, m3) == ThreeJ(j1, j2, j3, m1, m2, m3)
Near(a, b) == FxNear(a, b, Eps)
\* laws are checked in the states of length one (all requests)
Valid(q) == Abs(q[3]) <= q[1] /\ Abs(q[4]) <= q[2]
JMax(q) == q[1] + q[2]
RECURSIVE SumSq(_, _, _)
LOCAL SumSq(q, j, acc) == IF j > JMax(q) THEN acc
    ELSE LET v == T(j, q[1], q[2], -(q[3]+q[4]), q[3], q[4]) IN SumSq(q, j+1, BAdd(acc, FxMulInt(FxMul(v, v), 2*j+1)))
\* sum over j1 of (2 j1 + 1) 3j^2 = 1
Orthonormal == prev = None /\ Valid(cur) => Near(SumSq(cur, 0, FxZero), FxOne)
Symmetries == prev = None /\ Valid(cur) =>
    \A j \in 0..JMax(cur) :
        LET a == cur[1]  b == cur[2]  m == cur[3]  n == cur[4]  k == -(cur[3] + cur[4])
            v == T(j, a, b, k, m, n)
            s == IF (j + a + b) % 2 = 0 THEN v ELSE BNeg(v)
        IN  /\ Near(T(a, b, j, m, n, k), v) /\ Near(T(b, j, a, n, k, m), v)       \* cyclic
            /\ Near(T(a, j, b, m, k, n), s) /\ Near(T(j, b, a, k, n, m), s)       \* odd permutations
            /\ Near(T(j, a, b, -k, -m, -n), s)                                     \* reversal
Zeros == prev = None /\ ~Valid(cur) => \A j \in 0..JMax(cur) : BSgn(T(j, cur[1], cur[2], -(cur[3]+cur[4]), cur[3], cur[4])) = 0
\* the sign convention: (-1)^(j2-j3+m2+m3) 3j(j2+j3, ...) > 0
SignRule == prev = None /\ Valid(cur) =>
    BSgn(T(JMax(cur), cur[1], cur[2], -(cur[3]+cur[4]), cur[3], cur[4])) = (IF (cur[1] - cur[2] + cur[3] + cur[4]) % 2 = 0 THEN 1 ELSE -1)
================================================================================
