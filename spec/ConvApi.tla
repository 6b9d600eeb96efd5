-------------------------------- MODULE ConvApi --------------------------------
(***************************************************************************)
(* Events recorded from the free functions of Conv:                         *)
(*   new   id k s lo sh v                                                   *)
(*   call  op a (array) id x sh v un mem   un = 1: no array was changed,     *)
(*                                         mem = 1: result shares memory     *)
(***************************************************************************)
EXTENDS Conv

LOCAL V(st, v) == [v |-> v, st |-> st]
LOCAL Put(st, i, o) == [j \in DOMAIN st \cup {i} |-> IF j = i THEN o ELSE st[j]]
LOCAL Vals8(v) == [i \in 1..Len(v) |-> COf(v[i])]
(* what is claimed of an element: the inverse of ethbar leaves open what it     *)
(* makes of modes that ethbar cannot produce                                    *)
LOCAL Open(op, A, i) == op = "ethbar_inverse_NP" /\ ~Exists(op, A.s, LOfRow(A.lo, i)) /\ ~CIsZero(A.raw[i])
(* tolerance: relative to the numbers an element is made of                     *)
LOCAL Scale(op, A, i) == IF op \in {"vector_as_ell_1_modes", "vector_from_ell_1_modes"}
                         THEN LET b == 3*((i-1) \div 3) IN FxMulInt(FxMax(CMaxAbs(A.v[b+1]), FxMax(CMaxAbs(A.v[b+2]), CMaxAbs(A.v[b+3]))), 4)
                         ELSE FxZero
ElemOk(op, A, z, w, i) ==
    \/ Open(op, A, i)
    \/ IF op \in EthOps /\ ~Exists(op, A.s, LOfRow(A.lo, i)) THEN CIsZero(z)
       ELSE CIs(z, w, BAdd(BShr(FxMax(CMaxAbs(w), Scale(op, A, i)), 49), FxTen(40)))
ConvStep(st, e) ==
    IF e.op = "new" THEN V(Put(st, e.id, [k |-> e.k, s |-> e.s, lo |-> e.lo, sh |-> e.sh, raw |-> e.v, v |-> Vals8(e.v)]), "ok")
    ELSE IF e.a \notin DOMAIN st THEN V(st, "ok")
    ELSE LET A == st[e.a] IN
      IF A.k # KindIn(e.op) THEN V(st, "bad plan")
      ELSE IF e.x # "" THEN V(st, e.op \o " raised " \o e.x)
      ELSE IF e.un # 1 THEN V(st, e.op \o " changed an existing array")
      ELSE IF e.mem = 1 THEN V(st, e.op \o " returned memory of its argument")
      ELSE IF e.sh # A.sh THEN V(st, e.op \o " returned shape " \o ToString(e.sh) \o " for " \o ToString(A.sh))
      ELSE IF \E i \in 1..Len(e.v) : ~CFinite(e.v[i]) THEN V(st, e.op \o " returned numbers that are not finite")
      ELSE LET w == TLCEval(Image(e.op, A))
               bad == {i \in 1..Len(e.v) : ~ElemOk(e.op, A, e.v[i], w[i], i)}
               B == [k |-> KindOut(e.op), s |-> IF e.op \in EthOps THEN To(e.op, A.s) ELSE 0, lo |-> A.lo, sh |-> A.sh,
                     raw |-> e.v, v |-> Vals8(e.v)]
           IN  V(Put(st, e.id, B), IF bad = {} THEN "ok"
                   ELSE e.op \o ": wrong element " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j)
                        \o " (spin weight " \o ToString(A.s) \o ", ell_min " \o ToString(A.lo) \o ")")
ConvInit == [i \in {} |-> 0]
================================================================================
