--------------------------------- MODULE FieldApi ---------------------------------
(***************************************************************************)
(* Modes and Grid objects as a heap machine.                                *)
(*                                                                         *)
(* State: id -> object; an object is a FieldMeta description together with  *)
(*   v    its values as recorded (row-major)                                *)
(*   buf  the memory it lives in: objects with the same buf may be views of *)
(*        one another; no other object may notice what happens to it        *)
(*   pos  the place of each value in that memory, <<>> where it is not known  *)
(*   src  for grids: the functions (per leading cell) it samples, where     *)
(*        known (<<>> otherwise)                                            *)
(*                                                                         *)
(* Every event carries                                                      *)
(*   x    the error raised, or ""                                           *)
(*   id   the id given to the result (0: not kept)                          *)
(*   res  description of the result, with v, sh, mem (ids of live objects   *)
(*        whose memory it shares) and same (id of the live object it is)    *)
(*   ch   the live objects whose values or description changed, with their  *)
(*        new description                                                   *)
(*   t    for operations with a target, the target afterwards               *)
(***************************************************************************)
EXTENDS FieldMeta, Fields, FiniteSets

LOCAL V(st, v) == [v |-> v, st |-> st]
LOCAL Has(e, f) == f \in DOMAIN e

\* ---------------------------------------------------------------- values
NCell(o) == NElem(o.lead)
PerCell(o) == IF o.k = "M" THEN NModes(o.L) ELSE IF o.k = "G" THEN o.nt * o.np ELSE 1
ShapeOf(o) == IF o.k = "M" THEN Append(o.lead, NModes(o.L)) ELSE IF o.k = "G" THEN o.lead \o <<o.nt, o.np>> ELSE o.lead
\* the numbers of cell c (from 0)
CellVals(o, c) == LET n == PerCell(o) IN TLCEval([i \in 1..n |-> COf(o.v[c*n + i])])
FieldAt(o, c) == [s |-> o.s, L |-> o.L, v |-> CellVals(o, c)]
\* cell of the operand that meets cell c of the result
SrcCell(o, lead, c) == SrcPos(o.lead, lead, c)

RelTol(sc) == BShr(sc, 40)
\* recorded numbers z[off+1..] against the pairs p
FirstWrong(z, off, p) == LET S == {i \in 1..Len(p) : ~CIs(z[off + i], p[i][1], RelTol(p[i][2]))}
                         IN  IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* ------------------------------------------------- values of a grid cell
LOCAL PtAdd(y, z) == Two(y, z, CAdd(y, z))
LOCAL PtSub(y, z) == Two(y, z, CSub(y, z))
LOCAL Mag(z) == BAdd(BAbs(z[1]), BAbs(z[2]))
LOCAL PtMul(y, z) == <<CMul(y, z), FxMul(Mag(y), Mag(z))>>
LOCAL PtDiv(y, z) == LET q == CDiv(y, z) IN <<q, BShl(Mag(q), 2)>>
PtBin(op, y, z) == CASE op = "add" -> PtAdd(y, z) [] op = "sub" -> PtSub(y, z) [] op = "mul" -> PtMul(y, z) [] op = "div" -> PtDiv(y, z)
RECURSIVE CPow(_, _)
LOCAL CPow(z, n) == IF n = 0 THEN COne ELSE CMul(z, CPow(z, n-1))
LOCAL PtPow(z, n) == LET w == CPow(z, IF n < 0 THEN -n ELSE n)
                         q == IF n < 0 THEN CDiv(COne, w) ELSE w
                     IN  <<q, FxMulInt(Mag(q), 4*(Abs(n) + 1))>>
PtUn(op, n, z) ==
    CASE op \in {"pos", "copy", "copy.copy", "deepcopy", "pickle", "view", "all"} -> One(z)
      [] op = "neg" -> One(CNeg(z))
      [] op = "conj" -> One(CConj(z))
      [] op = "real" -> One(CReal(z[1]))
      [] op = "imag" -> One(CReal(z[2]))
      [] op = "abs" -> One(CReal(FxSqrt(CNormSq(z))))
      [] op = "square" -> PtMul(z, z)
      [] op = "recip" -> PtDiv(COne, z)
      [] op = "pow" -> PtPow(z, n)
      [] op = "zeros_like" -> One(CZero)
      [] op = "ones_like" -> One(COne)

\* ---------------------------------------- what a cell of the result holds
BinCell(op, A, B, R, c) ==
    LET ca == SrcCell(A, R.lead, c)  cb == SrcCell(B, R.lead, c)
    IN  IF R.k = "G"
        THEN LET a == CellVals(A, ca)  b == CellVals(B, cb)
                 at(w, o, i) == IF o.k = "G" THEN w[i] ELSE w[1]
             IN  [i \in 1..(R.nt * R.np) |-> PtBin(op, at(a, A, i), at(b, B, i))]
        ELSE LET ModesModes(f, g) == CASE op = "add" -> PAdd(f, g) [] op = "sub" -> PSub(f, g) [] op = "mul" -> PMul(f, g, R.L)
                 ModesScalar(f, z) == CASE op = "mul" -> PScale(f, z) [] op = "div" -> PDivide(f, z) [] OTHER -> PCopy(f, f.L)
                 ScalarModes(z, f) == CASE op = "mul" -> PScale(f, z) [] op = "sub" -> PNeg(f) [] OTHER -> PCopy(f, f.L)
             IN  CASE A.k = "M" /\ B.k = "M" -> ModesModes(FieldAt(A, ca), FieldAt(B, cb))
                   [] A.k = "M" /\ B.k = "S" -> ModesScalar(FieldAt(A, ca), CellVals(B, cb)[1])
                   [] OTHER -> ScalarModes(CellVals(A, ca)[1], FieldAt(B, cb))
UnCell(op, n, A, R, c) ==
    LET ca == IF op = "take" THEN n * (NCell(A) \div A.lead[1]) + c ELSE c
    IN  IF A.k = "G"
        THEN LET a == CellVals(A, ca) IN [i \in 1..Len(a) |-> IF op = "take" THEN One(a[i]) ELSE PtUn(op, n, a[i])]
        ELSE LET f == FieldAt(A, ca)
             IN  CASE op \in {"pos", "copy", "copy.copy", "deepcopy", "pickle", "view", "all", "take"} -> PCopy(f, f.L)
                   [] op = "neg" -> PNeg(f)
                   [] op = "conj" -> PConj(f)
                   [] op = "real" -> PReal(f)
                   [] op = "imag" -> PImag(f)
                   [] op = "trunc" -> PCopy(f, R.L)
                   [] op = "zeros_like" -> LET G(l, m) == <<CZero, FxZero>> IN Each(f.s, f.L, G)
                   [] op = "norm" -> << One(CReal(NormVal(f))) >>
                   [] op \in Derivs -> Deriv(op, f)

\* --------------------------------------------------------- common checks
DescOk(d, R) == d.k = R.k /\ d.sh = ShapeOf(R)
                /\ (R.k \in {"M", "G"} => d.s = R.s /\ d.tr \in R.trs /\ (R.k = "M" => d.L = R.L) /\ (R.k = "G" => d.dt = R.dt /\ d.L = 0))
Desc(d) == ToString([k |-> d.k, s |-> d.s, L |-> d.L, tr |-> d.tr, sh |-> d.sh, dt |-> d.dt])
Cells(R) == NElem(R.lead)
BadCell(d, R, Cell(_)) ==
    LET S == {c \in 0..Cells(R)-1 : FirstWrong(d.v, c * PerCell(R), Cell(c)) # 0}
    IN  IF S = {} THEN -1 ELSE CHOOSE c \in S : \A j \in S : c <= j
\* numbers are checked unless there is no specification for them
ValOk(d, R, Cell(_)) == BadCell(d, R, Cell) = -1

Obj(d, R, buf, pos, src) == [k |-> d.k, s |-> d.s, L |-> d.L, nt |-> R.nt, np |-> R.np, dt |-> d.dt, tr |-> d.tr, lead |-> R.lead,
                             nz |-> TRUE, v |-> d.v, buf |-> buf, pos |-> pos, src |-> src]
Fresh(n) == [i \in 1..n |-> i]
\* places of what a view of A shows
ViewPos(op, n, A, R) ==
    IF A.pos = <<>> THEN <<>>
    ELSE CASE op \in {"view", "all", "ndarray"} -> A.pos
           [] op = "take" -> LET w == Len(A.v) \div A.lead[1] IN SubSeq(A.pos, n*w + 1, n*w + w)
           [] op = "trunc" -> LET a == NModes(A.L)  b == NModes(R.L)
                              IN  [i \in 1..(b * NCell(A)) |-> A.pos[((i-1) \div b) * a + ((i-1) % b) + 1]]
           [] OTHER -> <<>>
Put(st, i, o) == [j \in DOMAIN st \cup {i} |-> IF j = i THEN o ELSE st[j]]
\* objects that the event reports as changed
Changed(e) == {e.ch[i].id : i \in 1..Len(e.ch)}
NewVals(e, i) == LET k == CHOOSE k \in 1..Len(e.ch) : e.ch[k].id = i IN e.ch[k].d
\* description of a live object as the driver would record it
SameDesc(o, d) == d.k = o.k /\ d.s = o.s /\ d.L = o.L /\ d.tr = o.tr /\ d.dt = o.dt /\ d.sh = ShapeOf(o)
(* after an event with target tgt, whose numbers now are w: no other object     *)
(* changed, but for the numbers that it shares with the target                  *)
LOCAL SharedVals(o, T, w) ==
    LET inv == [p \in {T.pos[i] : i \in 1..Len(T.pos)} |-> CHOOSE i \in 1..Len(T.pos) : T.pos[i] = p]
    IN  [k \in 1..Len(o.v) |-> IF o.pos[k] \in DOMAIN inv THEN w[inv[o.pos[k]]] ELSE o.v[k]]
FrameOk(st, e, tgt, w) ==
    /\ \A i \in (Changed(e) \cap DOMAIN st) \ {tgt} : st[i].buf = st[tgt].buf /\ SameDesc(st[i], NewVals(e, i))
    /\ \A i \in DOMAIN st \ {tgt} :
          st[i].buf = st[tgt].buf /\ st[i].pos # <<>> /\ st[tgt].pos # <<>>
          => SharedVals(st[i], st[tgt], w) = (IF i \in Changed(e) THEN NewVals(e, i).v ELSE st[i].v)
\* take over the numbers of the views of the target
Sync(st, e, tgt) == [j \in DOMAIN st |-> IF j \in Changed(e) /\ j # tgt THEN [st[j] EXCEPT !.v = NewVals(e, j).v, !.src = <<>>] ELSE st[j]]

(* a pure operation: result R with cells Cell; views says whether the result   *)
(* may share memory with an operand                                            *)
StepPure(st, e, R, Cell(_), checkv, views, buf, pos, src) ==
    IF Raises(R)
    THEN V(st, IF e.x \notin R.x THEN "should raise one of " \o ToString(R.x) \o ", not: " \o e.x
               ELSE IF e.ch # <<>> THEN "raised, but changed objects " \o ToString(Changed(e)) ELSE "ok")
    ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
    ELSE LET o == Obj(e.res, R, IF views THEN buf ELSE e.id, IF views THEN pos ELSE Fresh(Len(e.res.v)), src)
             st2 == IF e.id # 0 /\ DescOk(e.res, R) THEN Put(st, e.id, o) ELSE st
         IN  IF e.ch # <<>> THEN V(st2, "changed live objects " \o ToString(Changed(e)))
             ELSE IF ~DescOk(e.res, R) THEN V(st2, "result is " \o Desc(e.res) \o " instead of " \o ToString(R))
             ELSE IF ~views /\ e.res.mem # <<>> THEN V(st2, "result shares memory with " \o ToString(e.res.mem))
             ELSE IF checkv /\ ~ValOk(e.res, R, Cell) THEN V(st2, "wrong numbers in cell " \o ToString(BadCell(e.res, R, Cell)))
             ELSE V(st2, "ok")

(* the same, directed to the object tgt                                        *)
StepInto(st, e, R0, Cell(_), checkv, tgt, src) ==
    LET R == Into(st[tgt], R0)
    IN  IF Raises(R)
        THEN V(st, IF e.x \notin R.x THEN "should raise one of " \o ToString(R.x) \o ", not: " \o e.x
                   ELSE IF e.ch # <<>> THEN "raised, but changed objects " \o ToString(Changed(e)) ELSE "ok")
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE LET ok1 == DescOk(e.t, R)
                 o   == Obj(e.t, R, st[tgt].buf, st[tgt].pos, src)
                 s1  == Sync(st, e, tgt)
                 st2 == IF ok1 THEN Put(s1, tgt, o) ELSE s1
                 st3 == IF e.id # 0 /\ DescOk(e.res, R) THEN Put(st2, e.id, Obj(e.res, R, st[tgt].buf, st[tgt].pos, src)) ELSE st2
             IN  IF ~FrameOk(st, e, tgt, e.t.v) THEN V(st3, "changed other objects than the target: " \o ToString(Changed(e)))
                 ELSE IF ~ok1 THEN V(st3, "target is " \o Desc(e.t) \o " instead of " \o ToString(R))
                 ELSE IF ~DescOk(e.res, R) THEN V(st3, "result is " \o Desc(e.res) \o " instead of " \o ToString(R))
                 ELSE IF e.res.v # e.t.v THEN V(st3, "result and target differ")
                 ELSE IF Len(e.t.v) > 0 /\ ~(\E k \in 1..Len(e.res.mem) : e.res.mem[k] = tgt) THEN V(st3, "result does not live in the target")
                 ELSE IF checkv /\ ~ValOk(e.t, R, Cell) THEN V(st3, "wrong numbers in cell " \o ToString(BadCell(e.t, R, Cell)))
                 ELSE V(st3, "ok")

\* ------------------------------------------------------------ operations
\* operand: a live object (i > 0), or plain numbers
Operand(st, a) == IF a.i > 0 THEN st[a.i]
                  ELSE [k |-> "S", s |-> 0, L |-> 0, nt |-> 0, np |-> 0, dt |-> a.dt, tr |-> "none", lead |-> a.sh,
                        nz |-> \E i \in 1..Len(a.v) : ~CIsZero(a.v[i]), v |-> a.v, buf |-> 0, pos |-> <<>>, src |-> <<>>]

\* the functions a grid samples, where they are known and resolved by the grid
SrcField(o, lead, c) == o.src[SrcPos(o.lead, lead, c) + 1]
Resolved(R, fs) == IF \A c \in 1..Len(fs) : 2*fs[c].L + 1 <= Min(R.nt, R.np) THEN fs ELSE <<>>
BinSrc(op, A, B, R) ==
    IF R.k # "G" THEN <<>>
    ELSE IF A.k = "G" /\ B.k = "G"
    THEN IF A.src = <<>> \/ B.src = <<>> \/ op = "div" THEN <<>>
         ELSE Resolved(R, TLCEval([c \in 1..Cells(R) |->
                LET f == SrcField(A, R.lead, c-1)  g == SrcField(B, R.lead, c-1)
                IN  CASE op = "add" -> Field(R.s, Max(f.L, g.L), PAdd(f, g))
                      [] op = "sub" -> Field(R.s, Max(f.L, g.L), PSub(f, g))
                      [] op = "mul" -> IF 2*(f.L + g.L) + 1 > Min(R.nt, R.np) THEN [s |-> R.s, L |-> f.L + g.L, v |-> <<>>]
                                       ELSE Field(R.s, f.L + g.L, PMul(f, g, f.L + g.L))]))
    ELSE IF A.k = "G" /\ B.k = "S" /\ A.src # <<>> /\ op = "mul"
    THEN TLCEval([c \in 1..Cells(R) |-> LET f == SrcField(A, R.lead, c-1)
                                       IN  Field(R.s, f.L, PScale(f, CellVals(B, SrcCell(B, R.lead, c-1))[1]))])
    ELSE IF A.k = "S" /\ B.k = "G" /\ B.src # <<>> /\ op = "mul"
    THEN TLCEval([c \in 1..Cells(R) |-> LET f == SrcField(B, R.lead, c-1)
                                       IN  Field(R.s, f.L, PScale(f, CellVals(A, SrcCell(A, R.lead, c-1))[1]))])
    ELSE <<>>
UnSrc(op, A, R) ==
    IF R.k # "G" \/ A.k # "G" THEN <<>>
    ELSE IF A.src = <<>> THEN <<>>
    ELSE CASE op \in {"pos", "copy", "copy.copy", "deepcopy", "pickle", "view", "all"} -> A.src
           [] op = "neg" -> TLCEval([c \in 1..Len(A.src) |-> Field(A.s, A.src[c].L, PNeg(A.src[c]))])
           [] op = "conj" -> TLCEval([c \in 1..Len(A.src) |-> Field(-A.s, A.src[c].L, PConj(A.src[c]))])
           [] op = "real" -> TLCEval([c \in 1..Len(A.src) |-> Field(0, A.src[c].L, PReal(A.src[c]))])
           [] op = "imag" -> TLCEval([c \in 1..Len(A.src) |-> Field(0, A.src[c].L, PImag(A.src[c]))])
           [] OTHER -> <<>>

(* numbers within the range the arithmetic here is made for; others are not      *)
(* checked (a quotient of vanishing numbers, ...)                                *)
LOCAL ExpIn(f, lo) == (f[2] = 0 /\ f[3] = 0) \/ (f[1] <= 7 /\ f[1] >= lo)
LOCAL ExpOk(f) == ExpIn(f, -130)
LOCAL NotTiny(o) == \A i \in 1..Len(o.v) : ExpIn(o.v[i][1], -80) /\ ExpIn(o.v[i][2], -80)
Usable(o) == \A i \in 1..Len(o.v) : CFinite(o.v[i]) /\ ExpOk(o.v[i][1]) /\ ExpOk(o.v[i][2])
LOCAL ExpBig(f) == f[2] # 0 /\ f[1] >= -73
Invertible(o) == \A i \in 1..Len(o.v) : ExpBig(o.v[i][1]) \/ ExpBig(o.v[i][2])
StepBin(st, e) ==
    LET A == Operand(st, e.a)  B == Operand(st, e.b)
        R == BinMeta(e.op, e.tr, A, B)
        Cell(c) == BinCell(e.op, A, B, R, c)
        can == Usable(A) /\ Usable(B) /\ (e.op = "div" => Invertible(B))
    IN  IF e.o = 0 THEN StepPure(st, e, R, Cell, can, FALSE, 0, <<>>, IF Raises(R) THEN <<>> ELSE BinSrc(e.op, A, B, R))
        ELSE StepInto(st, e, R, Cell, can, e.o, IF Raises(R) THEN <<>> ELSE BinSrc(e.op, A, B, R))

(* pick: a selection from the leading dimensions, these dimensions in another   *)
(* order, or in another shape.  Whether it is a view is numpy's business.        *)
StepPick(st, e) ==
    LET A    == st[e.a.i]
        lead == CASE e.kd = "key" -> KeyShape(e.key) [] e.kd = "perm" -> PermShape(e.key, A.lead) [] OTHER -> e.key
        Src(c) == CASE e.kd = "key" -> KeyPos(e.key, A.lead, c) [] e.kd = "perm" -> PermPos(e.key, A.lead, c) [] OTHER -> c
        R    == IF A.k = "M" THEN MkM(A.s, A.L, {A.tr}, lead) ELSE MkG(A.s, A.nt, A.np, A.dt, {A.tr}, lead)
        n    == PerCell(A)
        Cell(c) == LET v == CellVals(A, Src(c)) IN [i \in 1..n |-> One(v[i])]
        views == \E k \in 1..Len(e.res.mem) : e.res.mem[k] = e.a.i
        pos  == IF A.pos = <<>> THEN <<>> ELSE TLCEval([i \in 1..(n * NElem(lead)) |-> A.pos[Src((i-1) \div n) * n + ((i-1) % n) + 1]])
        src  == IF A.src = <<>> THEN <<>> ELSE TLCEval([c \in 1..NElem(lead) |-> A.src[Src(c-1) + 1]])
    IN  StepPure(st, e, R, Cell, Usable(A), views, A.buf, IF views THEN pos ELSE <<>>, src)

NoVals(op, A) == op \in {"empty_like", "npcopy", "ndarray"} \/ (op \in {"ones_like", "abs"} /\ A.k = "M") \/ op = "sqrt"
StepUn(st, e) ==
    LET A == Operand(st, e.a)
        R == UnMeta(e.op, e.n, A)
        Cell(c) == UnCell(e.op, e.n, A, R, c)
        src == IF Raises(R) THEN <<>> ELSE UnSrc(e.op, A, R)
        can == ~NoVals(e.op, A) /\ Usable(A) /\ (e.op = "recip" \/ (e.op = "pow" /\ e.n < 0) => Invertible(A))
                /\ (e.op = "pow" /\ Abs(e.n) > 2 => NotTiny(A))
        \* parts, real and imaginary parts may be views or not
        views == e.op \in ViewOps /\ ~(A.k = "M" /\ e.op \in {"real", "imag"})
                 /\ (e.op \in {"trunc", "real", "imag"} => \E k \in 1..Len(e.res.mem) : e.res.mem[k] = e.a.i)
    IN  IF e.o = 0 THEN StepPure(st, e, R, Cell, can, views, A.buf,
                              IF Raises(R) \/ ~views THEN <<>> ELSE ViewPos(e.op, e.n, A, R), src)
        ELSE StepInto(st, e, R, Cell, can, e.o, src)

(* sqrt: the square of every number is the original one, and it lies in the    *)
(* right half plane                                                            *)
SqrtOk(z, a) == CFinite(z) /\ LET w == COf(z) IN
                   /\ BLeq(BNeg(RelTol(Mag(w))), w[1])
                   /\ CNear(CMul(w, w), a, RelTol(BShl(Mag(a), 2)))
(* plain copies and views: the same numbers                                    *)
SameVals(d, A) == d.v = A.v
(* np.absolute(Modes): documented as the L2 norm, returns |every weight|       *)
AbsElementwise(d, A) == \A i \in 1..Len(d.v) : CIs(d.v[i], CReal(FxSqrt(CNormSq(COf(A.v[i])))), RelTol(CMaxAbs(COf(A.v[i]))))
StepSpecial(st, e) ==
    LET A == Operand(st, e.a)
    IN  CASE e.op = "sqrt" -> LET r == StepUn(st, e)
                                  d == IF e.o = 0 THEN e.res ELSE e.t
                              IN  IF r.v = "ok" /\ e.x = "" /\ Usable(A) /\ (A.dt = "c" \/ \A i \in 1..Len(A.v) : A.v[i][1][2] >= 0)
                                     /\ \E i \in 1..Len(d.v) : ~SqrtOk(d.v[i], COf(A.v[i]))
                                  THEN V(r.st, "wrong square root") ELSE r
          [] e.op \in {"npcopy", "ndarray"} ->
                 LET r == StepUn(st, e) IN IF r.v = "ok" /\ e.x = "" /\ ~SameVals(e.res, A) THEN V(r.st, "other numbers than the original") ELSE r
          [] e.op = "abs" -> IF A.k = "G" THEN StepUn(st, e)
                             ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
                             ELSE IF e.ch # <<>> THEN V(st, "changed live objects")
                             ELSE IF e.res.sh = A.lead /\ ValOk(e.res, MkA("A", A.lead), LAMBDA c : UnCell("norm", 0, A, A, c)) THEN V(st, "ok")
                             ELSE IF e.res.k = "A" /\ e.res.sh = ShapeOf(A) /\ AbsElementwise(e.res, A) THEN V(st, "finding:absolute-elementwise")
                             ELSE V(st, "neither the norm nor the absolute values")

\* ---------------------------------------------------------- construction
(* new: k "M": Modes(input, spin weight, lmin, lmax) from input numbers e.in of  *)
(* shape e.insh; es = 1 / lm = 1 if the spin weight / ell_max was given          *)
RECURSIVE IsqrtUp(_, _)
LOCAL IsqrtUp(n, k) == IF k*k >= n THEN k ELSE IsqrtUp(n, k+1)
DeduceL(n, lmin) == LET k == IsqrtUp(n + lmin*lmin, 0) IN IF k*k = n + lmin*lmin /\ k > lmin THEN k - 1 ELSE -1
StepNewM(st, e) ==
    LET n == e.insh[Len(e.insh)]
        lead == SubSeq(e.insh, 1, Len(e.insh) - 1)
        L == IF e.lm = 1 THEN e.lmax ELSE DeduceL(n, e.lmin)
        bad == e.es = 0 \/ e.npos \in {2, 4} \/ L = -1 \/ n # NModes(L) - e.lmin*e.lmin
        R == IF bad THEN Raise({"ValueError"}) ELSE MkM(e.s, L, {e.trn}, lead)
        in(c, l, m) == COf(e.in[c*n + LMi(l, m) - e.lmin*e.lmin])
        Cell(c) == LET G(l, m) == IF l < e.lmin THEN <<CZero, FxZero>> ELSE <<in(c, l, m), FxZero>> IN Each(e.s, L, G)
        r == StepPure(st, e, R, Cell, TRUE, TRUE, e.id, Fresh(Len(e.res.v)), <<>>)
    IN  IF r.v = "ok" /\ ~bad /\ e.at # <<e.s, e.s, 0, L, NModes(L)>> THEN V(r.st, "attributes " \o ToString(e.at)) ELSE r
(* Modes(other Modes, ...): description taken over unless given anew               *)
StepReM(st, e) ==
    LET A == st[e.a.i]
        R == MkM(IF e.es = 1 THEN e.s ELSE A.s, A.L, {IF e.trn = "" THEN A.tr ELSE e.trn}, A.lead)
        Cell(c) == PCopy([FieldAt(A, c) EXCEPT !.s = R.s], A.L)
    IN  StepPure(st, e, R, Cell, TRUE, TRUE, A.buf, A.pos, <<>>)
StepNewG(st, e) ==
    LET d == Len(e.insh)
        bad == e.es = 0 \/ d < 2 \/ e.npos > 1
        R == IF bad THEN Raise({"ValueError"})
             ELSE MkG(e.s, e.insh[d-1], e.insh[d], e.dt, {e.trn}, SubSeq(e.insh, 1, d-2))
        np2 == R.nt * R.np
        Cell(c) == [i \in 1..np2 |-> <<COf(e.in[c*np2 + i]), FxZero>>]
    IN  StepPure(st, e, R, Cell, TRUE, TRUE, e.id, Fresh(Len(e.res.v)), <<>>)

\* index(l, m)
StepIndex(st, e) ==
    LET A == st[e.a.i]
        bad == e.l < Abs(A.s) \/ e.l < Abs(e.m) \/ e.l > A.L
    IN  V(st, IF e.ch # <<>> THEN "changed live objects"
              ELSE IF bad THEN (IF e.x = "ValueError" THEN "ok" ELSE "bad index not refused: " \o e.x)
              ELSE IF e.x = "" /\ e.r = LMi(e.l, e.m) - 1 THEN "ok" ELSE "index " \o ToString(e.r) \o " " \o e.x)

\* the user writes number e.z at position e.p of the object
StepSet(st, e) ==
    LET i == e.a.i
        want == [st[i].v EXCEPT ![e.p] = e.z]
    IN  IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE IF ~FrameOk(st, e, i, want) THEN V(Sync(st, e, i), "writing to an object changed another one: " \o ToString(Changed(e)))
        ELSE IF e.t.v # want \/ ~SameDesc(st[i], e.t) THEN V(st, "assignment gave another object")
        ELSE V(Put(Sync(st, e, i), i, [st[i] EXCEPT !.v = e.t.v, !.src = <<>>]), "ok")

\* ------------------------------------------------- grids and evaluation
LOCAL Ang(j, n) == FxDivInt(FxMulInt(FxPi, j), n)
\* rotor of the grid point (j, k): theta = pi j/(nt-1), phi = 2 pi k/np
PointTables(j, k, nt, np, n) ==
    LET th == FxDivInt(FxDivInt(FxMulInt(FxPi, j), nt - 1), 2)
        ph == FxDivInt(FxMulInt(FxPi, k), np)
    IN  RotorTables(CScale(FxCos(th), CCis(ph)), CScale(FxSin(th), CCis(BNeg(ph))), n)
(* The functions at all grid points: the harmonics at phi = 0 once per row, and  *)
(* sYlm(theta, phi) = sYlm(theta, 0) e^{i m phi} (law GridLaw of MCFieldLaws).    *)
LOCAL Row(f, j, nt) == LET t == PointTables(j, 0, nt, 1, 2*f.L + 2)
                       IN  TLCEval([i \in 1..Len(f.v) |-> IF LMTab[i][1] < Abs(f.s) \/ f.v[i] = CZero THEN <<CZero, FxZero>>
                              ELSE LET p == SYPair(t, f.s, LMTab[i][1], LMTab[i][2])
                                   IN  <<CMul(f.v[i], p[1]), FxMul(BShl(CMaxAbs(f.v[i]), 1), p[2])>>])
RECURSIVE RowSum(_, _, _, _)
LOCAL RowSum(row, ph, i, acc) ==
    IF i > Len(row) THEN acc
    ELSE IF row[i][1] = CZero THEN RowSum(row, ph, i+1, acc)
    ELSE LET m == LMTab[i][2]  w == ph[Abs(m) + 1]
         IN  RowSum(row, ph, i+1, CAdd(acc, CMul(IF m >= 0 THEN w ELSE CConj(w), row[i][1])))
RECURSIVE RowScale(_, _, _)
LOCAL RowScale(row, i, acc) == IF i > Len(row) THEN acc ELSE RowScale(row, i+1, BAdd(acc, row[i][2]))
GridCell(f, nt, np) ==
    LET rows == TLCEval([j \in 1..nt |-> Row(f, j-1, nt)])
        phs  == TLCEval([k \in 1..np |-> TLCEval(CPowers(CCis(FxDivInt(FxMulInt(FxPi, 2*(k-1)), np)), f.L))])
        sc   == TLCEval([j \in 1..nt |-> BAdd(BShl(RowScale(rows[j], 1, FxZero), 4), BShl(MaxAbs(f.v, 1, FxZero), 4))])
    IN  TLCEval([i \in 1..(nt*np) |-> <<RowSum(rows[((i-1) \div np) + 1], phs[((i-1) % np) + 1], 1, CZero), sc[((i-1) \div np) + 1]>>])
StepGrid(st, e) ==
    LET A == st[e.a.i]
        R0 == GridMeta(A, e.nt, e.np)
        R == IF e.ktr = "" \/ Raises(R0) THEN R0 ELSE [R0 EXCEPT !.trs = {e.ktr}]
        Cell(c) == GridCell(FieldAt(A, c), R.nt, R.np)
        src == Resolved(R, TLCEval([c \in 1..NCell(A) |-> FieldAt(A, c-1)]))
        \* a coarser grid cannot carry the function (spinsfast says so, and folds the values)
        fine == Raises(R) \/ (R.nt >= A.L + 2 /\ R.np >= 2*A.L + 1)
    IN  StepPure(st, e, R, Cell, Usable(A) /\ fine, FALSE, 0, <<>>, IF Raises(R) \/ ~Usable(A) THEN <<>> ELSE src)
\* (the grid has to resolve the ell_max asked for as well)
StepModes(st, e) ==
    LET A == st[e.a.i]
        R0 == ModesMeta(A, e.l)
        R == IF e.ktr = "" \/ Raises(R0) THEN R0 ELSE [R0 EXCEPT !.trs = {e.ktr}]
        Cell(c) == LET f == A.src[c+1]
                       b == FxMulInt(FxMax(MaxAbs(f.v, 1, FxZero), MaxAbs(CellVals(A, c), 1, FxZero)), 64)
                       G(l, m) == <<MW(f, l, m), b>>
                   IN  Each(A.s, R.L, G)
    IN  StepPure(st, e, R, Cell, A.src # <<>> /\ 2*R.L + 1 <= Min(A.nt, A.np), FALSE, 0, <<>>, <<>>)
\* evaluate(rotors): lead dimensions, then those of the rotors; sYlm exist up to ell=32
StepEval(st, e) ==
    LET A == st[e.a.i]
        ts == TLCEval([i \in 1..Len(e.rot) |->
                LET q == e.rot[i] IN RotorTables(<<FxOf(q[1]), FxOf(q[4])>>, <<FxOf(q[3]), FxOf(q[2])>>, 2*A.L + 2)])
        n  == Len(e.rot)
        R  == MkA("A", A.lead \o e.qsh)
        bad == {c \in 0..NCell(A)-1 : LET f == FieldAt(A, c)
                                         big == FxMul(MaxAbs(f.v, 1, FxZero), FxTen(13))
                                     IN \E i \in 1..n :
                  LET p == PEval(f, ts[i]) IN ~CIs(e.res.v[c*n + i], p[1], BAdd(RelTol(BShl(p[2], 2)), big))}
    IN  IF A.L > 32 THEN V(st, IF e.x # "ValueError" THEN "no ValueError for ell_max above 32" ELSE IF e.ch # <<>> THEN "changed live objects" ELSE "ok")
        ELSE IF e.x # "" THEN V(st, "raised " \o e.x)
        ELSE IF e.ch # <<>> THEN V(st, "changed live objects")
        ELSE IF ~DescOk(e.res, R) THEN V(st, "result is " \o Desc(e.res) \o " instead of " \o ToString(R))
        ELSE V(st, IF bad = {} THEN "ok" ELSE "wrong value")
\* theta_phi(nt, np): all pairs (pi j/(nt-1), 2 pi k/np)
StepTP(st, e) ==
    LET n == e.nt * e.np
        bad == {i \in 1..n : LET j == (i-1) \div e.np  k == (i-1) % e.np
                             IN  ~(/\ FxIs(e.r[2*i-1], FxDivInt(FxMulInt(FxPi, j), IF e.nt = 1 THEN 1 ELSE e.nt - 1), FxTen(14))
                                   /\ FxIs(e.r[2*i], FxDivInt(FxMulInt(FxPi, 2*k), e.np), FxTen(14)))}
    IN  V(st, IF e.x # "" THEN "raised " \o e.x ELSE IF e.sh # <<e.nt, e.np, 2>> THEN "shape" ELSE IF bad = {} THEN "ok" ELSE "wrong angle")

\* ---------------------------------------------------------- numpy functions
(* bad: a ufunc (or ufunc method, or keyword) that is not supported            *)
StepBad(st, e) == V(st, IF e.x \notin Errs \cup {"NotImplementedError"} THEN "not refused: " \o e.uf \o "." \o e.me \o " " \o e.x
                        ELSE IF e.ch # <<>> THEN "refused, but changed live objects" ELSE "ok")
(* cmp: comparison or test, a plain array of booleans                          *)
LOCAL Truth(uf, y, z) ==
    CASE uf = "equal" -> y = z [] uf = "not_equal" -> y # z
      [] uf = "logical_and" -> ~CIsZero(y) /\ ~CIsZero(z) [] uf = "logical_or" -> ~CIsZero(y) \/ ~CIsZero(z)
      [] uf = "less" -> ~BLeq(FxOf(z[1]), FxOf(y[1])) [] uf = "less_equal" -> BLeq(FxOf(y[1]), FxOf(z[1]))   \* real grids
      [] uf = "greater" -> ~BLeq(FxOf(y[1]), FxOf(z[1])) [] uf = "greater_equal" -> BLeq(FxOf(z[1]), FxOf(y[1]))
      [] uf = "isfinite" -> CFinite(y) [] uf = "isnan" -> IsNaN(y[1]) \/ IsNaN(y[2])
      [] uf = "isinf" -> (~IsFinite(y[1]) /\ ~IsNaN(y[1])) \/ (~IsFinite(y[2]) /\ ~IsNaN(y[2]))
StepCmp(st, e) ==
    LET A == Operand(st, e.a)  B == Operand(st, e.b)
        sa == ShapeOf(A)  sb == ShapeOf(B)
        sh == IF e.un = 1 THEN sa ELSE BC(sa, sb)
        bad == {k \in 1..NElem(sh) :
                  (e.res.v[k] = 1) # Truth(e.uf, A.v[SrcPos(sa, sh, k-1) + 1], IF e.un = 1 THEN <<>> ELSE B.v[SrcPos(sb, sh, k-1) + 1])}
    IN  V(st, IF e.ch # <<>> THEN "changed live objects"
              ELSE IF e.un = 0 /\ ~CanBC(sa, sb) THEN (IF e.x # "" THEN "ok" ELSE "shapes that do not fit")
              ELSE IF e.x # "" THEN "raised " \o e.x
              ELSE IF e.res.k # "B" THEN "not a plain array of booleans"
              ELSE IF e.res.sh # sh THEN "shape" ELSE IF bad = {} THEN "ok" ELSE "wrong answer")

\* ------------------------------------------------------------------------
FInit == [i \in {} |-> 0]
BinOps == {"add", "sub", "mul", "div"}
(* an object whose making was rejected is unknown from then on                 *)
Known(st, e) == /\ \A f \in {"a", "b"} : Has(e, f) /\ Has(e[f], "i") => e[f].i = 0 \/ e[f].i \in DOMAIN st
                /\ Has(e, "o") => e.o = 0 \/ e.o \in DOMAIN st
FStep(st, e) ==
    IF Has(e, "skip") THEN V(st, "ok")
    ELSE IF ~Known(st, e) THEN V(st, "ok")
    ELSE IF e.sc = 1 THEN V(st, "changed an array that was passed as an operand")
    ELSE CASE e.op = "newM" -> StepNewM(st, e)
      [] e.op = "reM" -> StepReM(st, e)
      [] e.op = "newG" -> StepNewG(st, e)
      [] e.op \in BinOps -> StepBin(st, e)
      [] e.op \in {"sqrt", "npcopy", "ndarray", "abs"} -> StepSpecial(st, e)
      [] e.op = "index" -> StepIndex(st, e)
      [] e.op = "set" -> StepSet(st, e)
      [] e.op = "grid" -> StepGrid(st, e)
      [] e.op = "modes" -> StepModes(st, e)
      [] e.op = "eval" -> StepEval(st, e)
      [] e.op = "tp" -> StepTP(st, e)
      [] e.op = "pick" -> StepPick(st, e)
      [] e.op = "bad" -> StepBad(st, e)
      [] e.op = "cmp" -> StepCmp(st, e)
      [] OTHER -> StepUn(st, e)
================================================================================
