--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Big integers: the operators of BigPure, which TLC evaluates through the  *)
(* Java class of the same name (java/Big.java) when it is on its classpath. *)
(***************************************************************************)
LOCAL Pure == INSTANCE BigPure

BZero == Pure!BZero
BOne == Pure!BOne
BInt(n) == Pure!BInt(n)
BSgn(a) == Pure!BSgn(a)
BNeg(a) == Pure!BNeg(a)
BAbs(a) == Pure!BAbs(a)
BAdd(a, b) == Pure!BAdd(a, b)
BSub(a, b) == Pure!BSub(a, b)
BMul(a, b) == Pure!BMul(a, b)
BDiv(a, b) == Pure!BDiv(a, b)
BShl(a, k) == Pure!BShl(a, k)
BShr(a, k) == Pure!BShr(a, k)
BSqrt(a) == Pure!BSqrt(a)
BCmp(a, b) == Pure!BCmp(a, b)
BLeq(a, b) == Pure!BLeq(a, b)
BMulShr(a, b, k) == Pure!BMulShr(a, b, k)
BScaled(e, hi, lo, p) == Pure!BScaled(e, hi, lo, p)
==============================================================================
