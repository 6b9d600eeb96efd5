-------------------------------- MODULE MCBig --------------------------------
(* Self-test of the arithmetic: module Big (Java override) agrees with BigPure. *)
EXTENDS Integers, Sequences, TLC, Big
P == INSTANCE BigPure

Smalls == {-2147483647, -32768, -3, 0, 1, 32767, 65536, 123456789}
Seeds == {P!BInt(n) : n \in Smalls}
\* numbers of 1..8 limbs built from the seeds
Nums == Seeds \cup {P!BMul(x, P!BAdd(P!BMul(y, y), P!BInt(12345))) : x \in Seeds, y \in Seeds}
Shifts == {0, 1, 15, 47}

VARIABLES a, b, k
Init == a = P!BZero /\ b = P!BZero /\ k = -1
Next == \/ k = -1 /\ a' \in Nums /\ b' = b /\ k' = -2
        \/ k = -2 /\ a' = a /\ b' \in Seeds /\ k' \in Shifts
Spec == Init /\ [][Next]_<<a, b, k>>

Agree == k >= 0 =>
    /\ BAdd(a, b) = P!BAdd(a, b)
    /\ BSub(a, b) = P!BSub(a, b)
    /\ BMul(a, b) = P!BMul(a, b)
    /\ P!BSgn(b) # 0 => BDiv(a, b) = P!BDiv(a, b)
    /\ BCmp(a, b) = P!BCmp(a, b)
    /\ BLeq(a, b) = P!BLeq(a, b)
    /\ BNeg(a) = P!BNeg(a) /\ BAbs(a) = P!BAbs(a)
    /\ BShl(a, k) = P!BShl(a, k)
    /\ BShr(a, k) = P!BShr(a, k)
    /\ BMulShr(a, b, k) = P!BMulShr(a, b, k)
    /\ (k = 0) => BSqrt(P!BAbs(a)) = P!BSqrt(P!BAbs(a))
    /\ (k = 0) => \A n \in Smalls : BInt(n) = P!BInt(n)
    /\ \A e \in {-60, 20} : BScaled(e, -67108863, 134217727, k) = P!BScaled(e, -67108863, 134217727, k)
\* Laws of the ring, so that the pure definition is not just compared with itself
Laws == k >= 0 =>
    /\ P!BSub(P!BAdd(a, b), b) = a
    /\ P!BSgn(b) # 0 => P!BDiv(P!BMul(a, b), b) = a
    /\ P!BShr(P!BShl(a, k), k) = a
    /\ LET r == P!BSqrt(P!BAbs(a)) IN (k = 0) =>
          /\ P!BLeq(P!BMul(r, r), P!BAbs(a))
          /\ ~P!BLeq(P!BMul(P!BAdd(r, P!BOne), P!BAdd(r, P!BOne)), P!BAbs(a))
==============================================================================
