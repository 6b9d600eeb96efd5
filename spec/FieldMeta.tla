-------------------------------- MODULE FieldMeta --------------------------------
(***************************************************************************)
(* What is known about spin-weighted functions besides their values.        *)
(*                                                                         *)
(* An object is described by a record                                       *)
(*   k     "M" mode weights (Modes), "G" values on a grid (Grid), "S" plain *)
(*         numbers (a scalar, or an array over leading dimensions)          *)
(*   s     spin weight                                                      *)
(*   L     largest ell (Modes)                                              *)
(*   nt np grid size (Grid)                                                 *)
(*   dt    "c" complex, "f" real numbers                                    *)
(*   tr    name of the multiplication truncator, "none" if there is none    *)
(*   lead  shape of the leading dimensions                                  *)
(*   nz    TRUE if some value is not zero (of interest for "S" only)        *)
(*                                                                         *)
(* The operators give the description of the result of an operation,        *)
(* or the errors one of which the operation must raise.                     *)
(***************************************************************************)
EXTENDS Shapes

LOCAL MAbs(a) == IF a >= 0 THEN a ELSE -a
LOCAL MMax(a, b) == IF a >= b THEN a ELSE b
LOCAL MMin(a, b) == IF a <= b THEN a ELSE b
NModes(L) == (L+1)*(L+1)

Errs == {"TypeError", "ValueError"}
Raise(S) == [x |-> S, k |-> "none", s |-> 0, L |-> 0, nt |-> 0, np |-> 0, dt |-> "c", trs |-> {}, lead |-> <<>>]
MkM(s, L, trs, lead) == [x |-> {}, k |-> "M", s |-> s, L |-> L, nt |-> 0, np |-> 0, dt |-> "c", trs |-> trs, lead |-> lead]
\* a Grid of spin weight s has to have 2|s|+1 points in both directions
MkG(s, nt, np, dt, trs, lead) ==
    IF nt < 2*MAbs(s) + 1 \/ np < 2*MAbs(s) + 1 THEN Raise({"ValueError"})
    ELSE [x |-> {}, k |-> "G", s |-> s, L |-> 0, nt |-> nt, np |-> np, dt |-> dt, trs |-> trs, lead |-> lead]
\* a plain array (floats "A", booleans "B", an integer "I")
MkA(k, lead) == [x |-> {}, k |-> k, s |-> 0, L |-> 0, nt |-> 0, np |-> 0, dt |-> "c", trs |-> {}, lead |-> lead]
Raises(r) == r.x # {}

\* ------------------------------------------------------------ truncators
TrVal(tr, p, q) == CASE tr \in {"sum", "none"} -> p + q [] tr = "max" -> MMax(p, q) [] tr = "min" -> MMin(p, q)
                     [] tr = "c0" -> 0 [] tr = "c3" -> 3 [] tr = "c9" -> 9
\* the ell_max of a product: the truncator given, or the larger of what both operands say
ProductL(tr, A, B) == IF tr # "" THEN TrVal(tr, A.L, B.L) ELSE MMax(TrVal(A.tr, A.L, B.L), TrVal(B.tr, A.L, B.L))

LOCAL Dt(A, B) == IF A.dt = "c" \/ B.dt = "c" THEN "c" ELSE "f"
\* scalars may only vary over the leading dimensions of the object
LOCAL ScalarOk(O, S) == Len(S.lead) <= Len(O.lead) /\ CanBC(O.lead, S.lead)

\* ------------------------------------------------------ binary operations
BinMeta(op, tr, A, B) ==
    CASE A.k = "M" /\ B.k = "M" ->
           IF op = "div" THEN Raise(Errs)
           ELSE IF op \in {"add", "sub"} /\ A.s # B.s THEN Raise({"ValueError"})
           ELSE IF ~CanBC(A.lead, B.lead) THEN Raise(Errs)
           ELSE IF op = "mul" THEN MkM(A.s + B.s, ProductL(tr, A, B), {A.tr, B.tr}, BC(A.lead, B.lead))
           ELSE MkM(A.s, MMax(A.L, B.L), {A.tr, B.tr}, BC(A.lead, B.lead))
      [] A.k = "M" /\ B.k = "S" ->
           IF ~ScalarOk(A, B) \/ (op \in {"add", "sub"} /\ B.nz) THEN Raise(Errs)
           ELSE MkM(A.s, A.L, {A.tr}, BC(A.lead, B.lead))
      [] A.k = "S" /\ B.k = "M" ->
           IF op = "div" \/ ~ScalarOk(B, A) \/ (op \in {"add", "sub"} /\ A.nz) THEN Raise(Errs)
           ELSE MkM(B.s, B.L, {B.tr}, BC(B.lead, A.lead))
      [] A.k = "G" /\ B.k = "G" ->
           IF A.nt # B.nt \/ A.np # B.np THEN Raise({"ValueError"})
           ELSE IF op \in {"add", "sub"} /\ A.s # B.s THEN Raise({"ValueError"})
           ELSE IF ~CanBC(A.lead, B.lead) THEN Raise(Errs)
           ELSE MkG(IF op = "mul" THEN A.s + B.s ELSE IF op = "div" THEN A.s - B.s ELSE A.s,
                    A.nt, A.np, Dt(A, B), {A.tr, B.tr}, BC(A.lead, B.lead))
      [] A.k = "G" /\ B.k = "S" ->
           IF ~ScalarOk(A, B) \/ (op \in {"add", "sub"} /\ A.s # 0 /\ B.nz) THEN Raise(Errs)
           ELSE MkG(A.s, A.nt, A.np, Dt(A, B), {A.tr}, BC(A.lead, B.lead))
      [] A.k = "S" /\ B.k = "G" ->
           IF ~ScalarOk(B, A) \/ (op \in {"add", "sub"} /\ B.s # 0 /\ A.nz) THEN Raise(Errs)
           ELSE MkG(IF op = "div" THEN -B.s ELSE B.s, B.nt, B.np, Dt(A, B), {B.tr}, BC(B.lead, A.lead))
      [] OTHER -> Raise(Errs)          \* a Modes and a Grid

\* ------------------------------------------------------- unary operations
SpinOf(op, s) == CASE op \in {"conj", "recip"} -> -s [] op \in {"Rp", "ethbar"} -> s - 1 [] op \in {"Rm", "eth"} -> s + 1
                   [] op = "square" -> 2*s [] OTHER -> s
Derivs == {"L2", "Lz", "Lp", "Lm", "R2", "Rz", "Rp", "Rm", "eth", "ethbar"}
Copies == {"copy", "copy.copy", "deepcopy", "pickle", "view", "all", "zeros_like", "ones_like", "empty_like"}
ViewOps == {"view", "all", "trunc", "take", "real", "imag", "ndarray", "nochange"}

UnMeta(op, n, A) ==
    CASE op \in {"neg", "pos"} \cup Copies ->
           IF A.k = "M" THEN MkM(A.s, A.L, {A.tr}, A.lead) ELSE MkG(A.s, A.nt, A.np, A.dt, {A.tr}, A.lead)
      [] op = "conj" -> IF A.k = "M" THEN MkM(-A.s, A.L, {A.tr}, A.lead) ELSE MkG(-A.s, A.nt, A.np, A.dt, {A.tr}, A.lead)
      [] op \in {"real", "imag"} ->
           IF A.s # 0 THEN Raise({"ValueError"})
           ELSE IF A.k = "M" THEN MkM(0, A.L, {A.tr}, A.lead) ELSE MkG(0, A.nt, A.np, "f", {A.tr}, A.lead)
      [] op = "norm" -> IF A.k = "M" THEN MkA("A", A.lead) ELSE Raise({"AttributeError"})
      [] op \in Derivs -> IF A.k = "M" THEN MkM(SpinOf(op, A.s), A.L, {A.tr}, A.lead) ELSE Raise({"AttributeError"})
      [] op = "trunc" -> IF A.k # "M" THEN Raise({"AttributeError"}) ELSE MkM(A.s, MMin(n, A.L), {A.tr}, A.lead)
      [] op = "take" ->  \* element n of the first leading dimension
           IF A.k = "M" THEN MkM(A.s, A.L, {A.tr}, Tail(A.lead)) ELSE MkG(A.s, A.nt, A.np, A.dt, {A.tr}, Tail(A.lead))
      [] op = "abs" -> IF A.k = "G" THEN MkG(0, A.nt, A.np, "f", {A.tr}, A.lead) ELSE MkA("A", Append(A.lead, NModes(A.L)))
      [] op = "pow" -> IF A.k = "G" THEN MkG(n * A.s, A.nt, A.np, A.dt, {A.tr}, A.lead) ELSE Raise(Errs)
      [] op = "square" -> IF A.k = "G" THEN MkG(2 * A.s, A.nt, A.np, A.dt, {A.tr}, A.lead) ELSE Raise(Errs)
      [] op = "recip" -> IF A.k = "G" THEN MkG(-A.s, A.nt, A.np, A.dt, {A.tr}, A.lead) ELSE Raise(Errs)
      [] op = "sqrt" -> IF A.k = "G" /\ A.s % 2 = 0 THEN MkG(A.s \div 2, A.nt, A.np, A.dt, {A.tr}, A.lead) ELSE Raise(Errs)
      [] op \in {"npcopy", "ndarray"} ->
           MkA("A", IF A.k = "M" THEN Append(A.lead, NModes(A.L)) ELSE A.lead \o <<A.nt, A.np>>)

(* modes -> grid (n_theta, n_phi; 0 = default) and back (ell_max; -1 = default) *)
GridMeta(A, nt, np) == LET a == IF nt = 0 THEN 2*A.L + 1 ELSE nt
                           b == IF np = 0 THEN a ELSE np
                       IN  MkG(A.s, a, b, "c", {A.tr}, A.lead)
ModesMeta(A, L) == MkM(A.s, IF L = -1 THEN (MMax(A.nt, A.np) - 1) \div 2 ELSE L, {A.tr}, A.lead)

(* The operation with its result directed to an existing object T: possible    *)
(* where T has the shape of the result and can hold its numbers.               *)
Holds(T, R) == T.k = R.k /\ T.lead = R.lead /\ T.L = R.L /\ T.nt = R.nt /\ T.np = R.np /\ ~(R.dt = "c" /\ T.dt = "f")
Into(T, R) == IF Raises(R) THEN R ELSE IF Holds(T, R) THEN [R EXCEPT !.dt = T.dt] ELSE Raise(Errs)
================================================================================
