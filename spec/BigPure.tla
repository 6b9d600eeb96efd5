------------------------------- MODULE BigPure -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers in pure TLA+ (TLC integers are 32 bits).    *)
(*                                                                         *)
(* A big integer is a tuple <<sgn, l_0, l_1, ..., l_k>> : its sign, then    *)
(* little-endian limbs in base 2^15 with no leading (most significant)      *)
(* zero limb.  Zero is <<0>>.  The representation is canonical, so TLA+     *)
(* equality is numerical equality.                                          *)
(*                                                                         *)
(* This module is the definition.  Module Big has the same operators, which *)
(* TLC evaluates with java.math.BigInteger (java/Big.java); MCBig.tla has   *)
(* TLC check that the two agree.                                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL BASE == 32768

\* ------------------------------------------------------------ magnitudes
RECURSIVE Trim(_)
LOCAL Trim(l) == IF l = <<>> THEN l
                 ELSE IF l[Len(l)] = 0 THEN Trim(SubSeq(l, 1, Len(l)-1)) ELSE l

LOCAL Limb(l, i) == IF i <= Len(l) THEN l[i] ELSE 0
LOCAL MaxOf(a, b) == IF a >= b THEN a ELSE b
LOCAL MinOf(a, b) == IF a <= b THEN a ELSE b

RECURSIVE MAddC(_, _, _, _)
LOCAL MAddC(a, b, i, c) ==
    IF i > MaxOf(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == Limb(a, i) + Limb(b, i) + c
         IN  <<t % BASE>> \o MAddC(a, b, i+1, t \div BASE)
LOCAL MAdd(a, b) == MAddC(a, b, 1, 0)

RECURSIVE MSubC(_, _, _, _)
LOCAL MSubC(a, b, i, c) ==          \* requires a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET t == a[i] - Limb(b, i) - c
         IN  IF t < 0 THEN <<t + BASE>> \o MSubC(a, b, i+1, 1)
             ELSE <<t>> \o MSubC(a, b, i+1, 0)
LOCAL MSub(a, b) == Trim(MSubC(a, b, 1, 0))

RECURSIVE MCmpAt(_, _, _)
LOCAL MCmpAt(a, b, i) == IF i = 0 THEN 0
                         ELSE IF a[i] < b[i] THEN -1
                         ELSE IF a[i] > b[i] THEN 1
                         ELSE MCmpAt(a, b, i-1)
LOCAL MCmp(a, b) == IF Len(a) < Len(b) THEN -1
                    ELSE IF Len(a) > Len(b) THEN 1
                    ELSE MCmpAt(a, b, Len(a))

RECURSIVE MScaleC(_, _, _, _)
LOCAL MScaleC(a, d, i, c) ==        \* a * d + c,  0 <= d, c < BASE
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == a[i] * d + c
         IN  <<t % BASE>> \o MScaleC(a, d, i+1, t \div BASE)
LOCAL MScale(a, d) == IF d = 0 THEN <<>> ELSE MScaleC(a, d, 1, 0)

RECURSIVE MMulC(_, _, _)
LOCAL MMulC(a, b, i) == IF i > Len(b) THEN <<>>
                        ELSE LET r == MMulC(a, b, i+1)
                             IN  MAdd(MScale(a, b[i]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
LOCAL MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MMulC(a, b, 1))

\* Quotient digit: the largest q < BASE with b*q <= r (bisection).
RECURSIVE QDigit(_, _, _, _)
LOCAL QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF MCmp(MScale(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi)
             ELSE QDigit(r, b, lo, mid - 1)

RECURSIVE MDivAt(_, _, _, _, _)
LOCAL MDivAt(a, b, i, q, r) ==      \* schoolbook long division, most significant limb first
    IF i = 0 THEN Trim(q)
    ELSE LET r1 == Trim(<<a[i]>> \o r)
             d  == QDigit(r1, b, 0, BASE - 1)
         IN  MDivAt(a, b, i-1, <<d>> \o q, MSub(r1, MScale(b, d)))
LOCAL MDiv(a, b) == MDivAt(a, b, Len(a), <<>>, <<>>)

RECURSIVE Pow2Small(_)
LOCAL Pow2Small(k) == IF k = 0 THEN 1 ELSE 2 * Pow2Small(k-1)
LOCAL Zeros(n) == [i \in 1..n |-> 0]
LOCAL MShl(a, k) == IF a = <<>> THEN <<>>
                    ELSE Zeros(k \div 15) \o MScale(a, Pow2Small(k % 15))
LOCAL MShr(a, k) == LET n == k \div 15
                    IN  IF n >= Len(a) THEN <<>>
                        ELSE MDiv(SubSeq(a, n+1, Len(a)), <<Pow2Small(k % 15)>>)

\* Integer square root by bisection on bits: largest r with r*r <= a.
RECURSIVE MSqrtB(_, _, _)
LOCAL MSqrtB(a, r, k) ==
    IF k < 0 THEN r
    ELSE LET t == MAdd(r, MShl(<<1>>, k))
         IN  IF MCmp(MMul(t, t), a) <= 0 THEN MSqrtB(a, t, k-1) ELSE MSqrtB(a, r, k-1)

\* ---------------------------------------------------------- signed numbers
LOCAL Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
LOCAL Mag(a) == Tail(a)
RECURSIVE LimbsOf(_)
LOCAL LimbsOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o LimbsOf(n \div BASE)

BZero == <<0>>
BOne  == <<1, 1>>
BInt(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN Mk(1, LimbsOf(n)) ELSE Mk(-1, LimbsOf(-n))
BSgn(a) == a[1]
BNeg(a) == IF a[1] = 0 THEN a ELSE [a EXCEPT ![1] = -a[1]]
BAbs(a) == IF a[1] = -1 THEN [a EXCEPT ![1] = 1] ELSE a
BAdd(a, b) == IF a[1] = 0 THEN b
              ELSE IF b[1] = 0 THEN a
              ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
              ELSE LET c == MCmp(Mag(a), Mag(b))
                   IN  IF c = 0 THEN <<0>>
                       ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
                       ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(a[1] * b[1], MMul(Mag(a), Mag(b)))
BDiv(a, b) == Mk(a[1] * b[1], MDiv(Mag(a), Mag(b)))       \* truncates toward zero
BShl(a, k) == Mk(a[1], MShl(Mag(a), k))                    \* a * 2^k
BShr(a, k) == Mk(a[1], MShr(Mag(a), k))                    \* a / 2^k toward zero
BSqrt(a) == Mk(a[1], MSqrtB(Mag(a), <<>>, (15 * Len(Mag(a))) \div 2 + 1))   \* floor, a >= 0
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN 0
              ELSE a[1] * MCmp(Mag(a), Mag(b))
BLeq(a, b) == BCmp(a, b) <= 0
BMulShr(a, b, k) == BShr(BMul(a, b), k)
\* m * 2^e, where m = hi*2^27 + lo, truncated to an integer multiple of 2^-p : the exact
\* value of a binary64 number as a fixed-point number with p fractional bits.
BScaled(e, hi, lo, p) ==
    LET m == BAdd(BShl(BInt(hi), 27), BInt(lo))
    IN  IF e + p >= 0 THEN BShl(m, e + p) ELSE BShr(m, -(e + p))
==============================================================================
