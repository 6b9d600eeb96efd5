---------------------------------- MODULE Conv ----------------------------------
(***************************************************************************)
(* The free functions on plain arrays: eth and ethbar in the normalisations *)
(* of Newman-Penrose and Geroch-Held-Penrose, the inverse of ethbar, and    *)
(* constants and vectors as functions with l = 0 and l = 1.                 *)
(*                                                                         *)
(* State: arrays id -> [k, s, lo, sh, v]: k = "modes" (modes of spin weight *)
(* s from l = lo on), "const", "ell0", "vec", "ell1"; v their numbers.      *)
(***************************************************************************)
EXTENDS Fields

\* ------------------------------------------------------------- the functions
EthOps == {"eth_NP", "ethbar_NP", "eth_GHP", "ethbar_GHP", "ethbar_inverse_NP"}
To(op, s) == IF op \in {"eth_NP", "eth_GHP", "ethbar_inverse_NP"} THEN s + 1 ELSE s - 1
LOCAL Root(n) == FxSqrt(FxInt(n))
(* factor of a mode with this l, of a function with spin weight s; there is     *)
(* none where the function or its image has no such mode                        *)
Exists(op, s, l) == l >= Abs(s) /\ l >= Abs(To(op, s))
Factor(op, s, l) ==
    IF ~Exists(op, s, l) THEN FxZero
    ELSE CASE op = "eth_NP" -> Root((l-s)*(l+s+1))
           [] op = "ethbar_NP" -> BNeg(Root((l+s)*(l-s+1)))
           [] op = "eth_GHP" -> FxSqrt(FxRat((l-s)*(l+s+1), 2))
           [] op = "ethbar_GHP" -> BNeg(FxSqrt(FxRat((l+s)*(l-s+1), 2)))
           [] op = "ethbar_inverse_NP" -> BNeg(FxSqrt(FxRat(1, (l+s+1)*(l-s))))
(* (l,m) of the i-th mode from l = lo on                                        *)
LOfRow(lo, i) == LMTab[lo*lo + i][1]
\* sqrt(4 pi), sqrt(2 pi/3), sqrt(4 pi/3)
S4Pi == FxSqrt(FxMulInt(FxPi, 4))
S23 == FxSqrt(FxDivInt(FxMulInt(FxPi, 2), 3))
S43 == FxSqrt(FxDivInt(FxMulInt(FxPi, 4), 3))
EthVal(op, s, lo, v) == [i \in 1..Len(v) |-> CScale(Factor(op, s, LOfRow(lo, i)), v[i])]
AsEll0(c) == CScale(S4Pi, c)
FromEll0(c) == <<FxDiv(c[1], S4Pi), FxDiv(c[2], S4Pi)>>
\* (1,-1), (1,0), (1,1) of v.n, n = (sin th cos ph, sin th sin ph, cos th)
AsEll1(v) == << CScale(S23, CAdd(v[1], CMulI(v[2]))), CScale(S43, v[3]), CScale(S23, CAdd(CNeg(v[1]), CMulI(v[2]))) >>
FromEll1(c) == LET r == FxDiv(FxOne, FxMulInt(S23, 2)) IN
               << CScale(r, CSub(c[1], c[3])), CNeg(CMulI(CScale(r, CAdd(c[1], c[3])))), CScale(FxDiv(FxOne, S43), c[2]) >>
ConvOps == {"constant_as_ell_0_mode", "constant_from_ell_0_mode", "vector_as_ell_1_modes", "vector_from_ell_1_modes"}
KindIn(op) == CASE op \in EthOps -> "modes" [] op = "constant_as_ell_0_mode" -> "const" [] op = "constant_from_ell_0_mode" -> "ell0"
                [] op = "vector_as_ell_1_modes" -> "vec" [] op = "vector_from_ell_1_modes" -> "ell1"
KindOut(op) == CASE op \in EthOps -> "modes" [] op = "constant_as_ell_0_mode" -> "ell0" [] op = "constant_from_ell_0_mode" -> "const"
                 [] op = "vector_as_ell_1_modes" -> "ell1" [] op = "vector_from_ell_1_modes" -> "vec"
Three(v, i, W(_)) == W(<<v[3*i+1], v[3*i+2], v[3*i+3]>>)
Image(op, A) ==
    CASE op \in EthOps -> EthVal(op, A.s, A.lo, A.v)
      [] op = "constant_as_ell_0_mode" -> [i \in 1..Len(A.v) |-> AsEll0(A.v[i])]
      [] op = "constant_from_ell_0_mode" -> [i \in 1..Len(A.v) |-> FromEll0(A.v[i])]
      [] op = "vector_as_ell_1_modes" -> [i \in 1..Len(A.v) |-> Three(A.v, (i-1) \div 3, AsEll1)[((i-1) % 3) + 1]]
      [] op = "vector_from_ell_1_modes" -> [i \in 1..Len(A.v) |-> Three(A.v, (i-1) \div 3, FromEll1)[((i-1) % 3) + 1]]
================================================================================
