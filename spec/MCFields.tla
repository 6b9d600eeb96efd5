------------------------------- MODULE MCFields -------------------------------
(***************************************************************************)
(* The heap of Modes and Grid objects as a machine: objects are made, taken  *)
(* views of, copied, combined, changed in place, directed into one another,  *)
(* in any order.  This module has the descriptions only (FieldMeta); the     *)
(* numbers are added when a behaviour is executed on the code (FieldApi).    *)
(* Behaviours of length DEPTH are plans; Ops selects what may happen.        *)
(*                                                                         *)
(* heap[i] = description of object i, with buf (the memory it lives in),     *)
(* full (TRUE if its memory layout is contiguous), and par (<<>> unless its  *)
(* description was derived: what it should be by the algebra of functions).  *)
(***************************************************************************)
EXTENDS FieldMeta, TLC, Json
CONSTANTS DEPTH, MAXOBJ, LTOP, Ops, Kinds, Leads, SIM
AllOps == {"new", "add", "sub", "mul", "div", "inplace", "out", "neg", "pos", "conj", "abs", "square", "recip", "sqrt", "pow",
           "norm", "real", "imag", "view", "copy", "set"} \cup Derivs
AllKinds == {"M", "G"}
ManyLeads == {<<>>, <<2>>, <<1>>, <<3, 2>>, <<2, 1>>}
LinearOps == {"new", "add", "sub", "smul", "div", "inplace", "out", "neg", "pos", "view"}
ConjOps == {"new", "conj", "real", "imag", "norm", "inplace", "out", "view"}
ProductOps == {"new", "mul", "conj", "inplace", "out"}
DerivOps == {"new", "view"} \cup Derivs
CopyOps == {"new", "copy", "view", "set", "conj", "inplace", "smul", "neg"}
GridOps == {"new", "add", "sub", "mul", "div", "neg", "pos", "conj", "abs", "square", "recip", "sqrt", "pow", "view", "inplace", "out"}
OnlyM == {"M"}
OnlyG == {"G"}
SomeLeads == {<<>>, <<2>>}
VARIABLES heap, hist, tgt
vars == <<heap, hist, tgt>>

LOCAL Ab(a) == IF a >= 0 THEN a ELSE -a
Trs == {"none", "sum", "max", "min"}
Sizes == {<<5, 5>>, <<7, 9>>, <<9, 7>>}
\* operands that are plain numbers; nz: some number is not zero
Sc(sh, kind, dt) == [seed |-> 0, sh |-> sh, kind |-> kind, dt |-> dt]
Scalars == {Sc(<<>>, "away", "c"), Sc(<<>>, "away", "f"), Sc(<<2>>, "away", "c"), Sc(<<>>, "zero", "f"), Sc(<<3>>, "away", "c")}
ScObj(c) == [k |-> "S", s |-> 0, L |-> 0, nt |-> 0, np |-> 0, dt |-> c.dt, tr |-> "none", lead |-> c.sh, nz |-> c.kind # "zero"]

(* SIM = FALSE: all behaviours.  SIM = TRUE: random ones, with calls that can   *)
(* succeed (Good) preferred to those that must be refused.                       *)
Pick(S) == IF ~SIM \/ S = {} THEN S ELSE {RandomElement(S)}
Prefer(S, Good(_)) == IF ~SIM \/ S = {} THEN S
                      ELSE LET G == {x \in S : Good(x)} IN {RandomElement(IF G # {} /\ RandomElement(1..5) > 1 THEN G ELSE S)}
Dom == 1..Len(heap)
Init == heap = <<>> /\ hist = <<>> /\ tgt = 0
Has(o) == o \in Ops
Room == Len(heap) < MAXOBJ
Id == Len(heap) + 1
OfR(R, tr, buf, full) == [k |-> R.k, s |-> R.s, L |-> R.L, nt |-> R.nt, np |-> R.np, dt |-> R.dt, tr |-> tr, lead |-> R.lead,
                          nz |-> TRUE, buf |-> buf, full |-> full]
\* a Grid's truncator is passed on like a Modes'; either operand's may be: the plan takes the first's
Keep(R, tr, buf, full) == heap' = Append(heap, OfR(R, tr, buf, full))
Log(c) == hist' = Append(hist, c)
Small(R) == R.k # "M" \/ R.L <= LTOP
Pure(R, tr, c) ==     \* a pure call c with result R
    IF Raises(R) THEN Log(c @@ [id |-> 0]) /\ UNCHANGED heap /\ tgt' = 0
    ELSE /\ Small(R) /\ Room /\ Keep(R, tr, Id, TRUE) /\ Log(c @@ [id |-> Id]) /\ tgt' = 0

NewM == /\ Has("new") /\ "M" \in Kinds /\ Room
        /\ \E s \in Pick(-2..2) : \E L \in Pick(Ab(s)..3) : \E ld \in Pick(Leads) : \E t \in Pick(Trs) :
             /\ Keep(MkM(s, L, {}, ld), t, Id, TRUE) /\ tgt' = 0
             /\ Log([op |-> "newM", id |-> Id, s |-> s, lmin |-> Ab(s), lmax |-> L, lead |-> ld, seed |-> 0, es |-> 1, lm |-> 1, trn |-> t])
NewG == /\ Has("new") /\ "G" \in Kinds /\ Room
        /\ \E s \in Pick(-2..2) : \E z \in Pick(Sizes) : \E ld \in Pick(Leads) : \E t \in Pick({"none", "max"}) : \E d \in Pick({"c", "f"}) :
             /\ Keep(MkG(s, z[1], z[2], d, {}, ld), t, Id, TRUE) /\ tgt' = 0
             /\ Log([op |-> "newG", id |-> Id, s |-> s, sh |-> ld \o z, seed |-> 0, es |-> 1, dt |-> d, trn |-> t])

BinOp == {"add", "sub", "mul", "div"} \cap Ops
BinOpS == BinOp \cup (IF Has("smul") THEN {"mul"} ELSE {})       \* with numbers
\* the numba kernel of products is compiled for every layout; keep to contiguous operands
MulOk(op, A, B) == op = "mul" /\ A.k = "M" /\ B.k = "M" => A.full /\ B.full
Pairs(op) == LET Good(p) == ~Raises(BinMeta(op, "", heap[p[1]], heap[p[2]]))
             IN  Prefer({p \in Dom \X Dom : MulOk(op, heap[p[1]], heap[p[2]])}, Good)
\* object and numbers, the numbers left or right
BinScalar(op, p) == IF p[3] THEN BinMeta(op, "", ScObj(p[2]), heap[p[1]]) ELSE BinMeta(op, "", heap[p[1]], ScObj(p[2]))
WithScalar(op, lefts) == LET Good(p) == ~Raises(BinScalar(op, p))
                         IN  Prefer({p \in Dom \X Scalars \X lefts : op = "div" => p[2].kind # "zero"}, Good)
ScArgs(p) == IF p[3] THEN [a |-> p[2], b |-> [i |-> p[1]]] ELSE [a |-> [i |-> p[1]], b |-> p[2]]
ObArgs(p) == [a |-> [i |-> p[1]], b |-> [i |-> p[2]]]
Bin == \E op \in Pick(BinOp) : \E p \in Pairs(op) : \E form \in Pick({"op", "uf", "meth"}) :
         Pure(BinMeta(op, "", heap[p[1]], heap[p[2]]), heap[p[1]].tr, [op |-> op, form |-> form] @@ ObArgs(p))
BinS == \E op \in Pick(BinOpS) : \E p \in WithScalar(op, BOOLEAN) : \E form \in Pick(IF p[3] THEN {"op", "uf"} ELSE {"op", "uf", "meth"}) :
         Pure(BinScalar(op, p), heap[p[1]].tr, [op |-> op, form |-> form] @@ ScArgs(p))

\* numpy lets a result be broadcast into a larger output array, and leading 1's be dropped: left out
RECURSIVE StripOnes(_)
StripOnes(sh) == IF sh # <<>> /\ Head(sh) = 1 THEN StripOnes(Tail(sh)) ELSE sh
BroadcastsInto(R, T) == LET p == StripOnes(IF R.k = "M" THEN Append(R.lead, NModes(R.L)) ELSE R.lead \o <<R.nt, R.np>>)
                            q == IF T.k = "M" THEN Append(T.lead, NModes(T.L)) ELSE T.lead \o <<T.nt, T.np>>
                        IN  CanBC(p, q) /\ BC(p, q) = q
Sharing(t) == {i \in 1..Len(heap) : heap[i].buf = heap[t].buf}
IntoOk(R, t) == /\ R.k = heap[t].k \/ Raises(R)
                /\ Raises(R) \/ Holds(heap[t], R) \/ ~BroadcastsInto(R, heap[t])
                /\ Raises(R) \/ R.k = "G" \/ (\A i \in Sharing(t) : Ab(heap[i].s) <= Ab(R.s))
Directed(R0, t, tr, c) ==
    LET R == Into(heap[t], R0)
    IN  /\ IntoOk(R0, t) /\ Small(R0)
        /\ IF Raises(R) THEN Log(c @@ [id |-> 0]) /\ UNCHANGED heap /\ tgt' = 0
           ELSE LET o == OfR(R, tr, heap[t].buf, heap[t].full)
                    T == [o EXCEPT !.dt = heap[t].dt]
                IN  /\ heap' = IF Room THEN Append([heap EXCEPT ![t] = T], T) ELSE [heap EXCEPT ![t] = T]
                    /\ Log(c @@ [id |-> IF Room THEN Id ELSE 0])
                    /\ tgt' = t
Targets(R) == LET Good(x) == Raises(R) \/ Holds(heap[x], R) IN Prefer({x \in Dom : IntoOk(R, x)}, Good)
BinI == Has("inplace") /\ \E op \in Pick(BinOp) : \E p \in Pairs(op) :
         Directed(BinMeta(op, "", heap[p[1]], heap[p[2]]), p[1], heap[p[1]].tr, [op |-> op, form |-> "iop"] @@ ObArgs(p))
BinSI == Has("inplace") /\ \E op \in Pick(BinOpS) : \E p \in WithScalar(op, {FALSE}) :
         Directed(BinScalar(op, p), p[1], heap[p[1]].tr, [op |-> op, form |-> "iop"] @@ ScArgs(p))
BinO == Has("out") /\ \E op \in Pick(BinOp) : \E p \in Pairs(op) :
         LET R == BinMeta(op, "", heap[p[1]], heap[p[2]])
         IN  \E x \in Targets(R) : \E form \in Pick({"out", "outtuple"}) :
               Directed(R, x, heap[p[1]].tr, [op |-> op, form |-> form, o |-> x] @@ ObArgs(p))
BinSO == Has("out") /\ \E op \in Pick(BinOpS) : \E p \in WithScalar(op, BOOLEAN) :
         \E x \in Targets(BinScalar(op, p)) : Directed(BinScalar(op, p), x, heap[p[1]].tr, [op |-> op, form |-> "out", o |-> x] @@ ScArgs(p))

\* op, spelling
UnPure(k) == {<<"neg", "op">>, <<"neg", "uf">>, <<"pos", "op">>, <<"pos", "uf">>, <<"conj", "meth">>, <<"conj", "meth2">>, <<"conj", "bar">>,
              <<"conj", "kw">>, <<"conj", "np">>, <<"conj", "uf">>}
             \cup (IF k = "M" THEN {<<d, "">> : d \in Derivs} \cup {<<"norm", "">>, <<"real", "">>, <<"imag", "">>}
                   ELSE {<<"abs", "op">>, <<"abs", "uf">>, <<"abs", "meth">>, <<"square", "uf">>, <<"recip", "uf">>, <<"sqrt", "uf">>,
                         <<"pow", "op">>, <<"pow", "uf">>})
Un == \E i \in Pick(Dom) : \E u \in Pick({u \in UnPure(heap[i].k) : u[1] \in Ops}) : \E n \in Pick(IF u[1] = "pow" THEN {-1, 0, 2, 3} ELSE {0}) :
         LET A == heap[i]  R == UnMeta(u[1], n, A)
         IN  /\ ~(u[1] = "pow" /\ n < 0 /\ A.dt = "f")
             /\ IF u[1] = "norm" THEN Log([op |-> "norm", a |-> [i |-> i], id |-> 0]) /\ UNCHANGED heap /\ tgt' = 0
                ELSE Pure(R, A.tr, [op |-> u[1], form |-> u[2], a |-> [i |-> i], n |-> n])
UnI == Has("inplace") /\ Has("conj") /\ \E i \in Pick(Dom) : \E kw \in Pick({0, 1}) :
         LET A == heap[i]  R == UnMeta("conj", 0, A)
         IN  /\ heap' = [heap EXCEPT ![i].s = R.s] /\ tgt' = i
             /\ Log([op |-> "conj", form |-> "inplace", kw |-> kw, a |-> [i |-> i], id |-> 0, n |-> 0])
UnO == Has("out") /\ \E i \in Pick(Dom) : \E op \in Pick((IF heap[i].k = "M" THEN {"neg", "pos", "conj"}
                                                           ELSE {"neg", "pos", "conj", "abs", "square", "recip", "sqrt", "pow"}) \cap Ops) :
         LET A == heap[i]  n == IF op = "pow" THEN 2 ELSE 0  R == UnMeta(op, n, A)
         IN  \E x \in Targets(R) : Directed(R, x, A.tr, [op |-> op, form |-> "out", a |-> [i |-> i], o |-> x, n |-> n])

ViewOk(A, op, n) ==
    /\ (op = "take" => A.lead # <<>> /\ n < A.lead[1])
    /\ (op = "trunc" => A.k = "M" /\ n >= Ab(A.s) /\ n < A.L)
    /\ (op \in {"real", "imag"} => A.k = "G" /\ A.s = 0 /\ A.dt = "c")
    /\ (op \notin {"take", "trunc"} => n = 0)
Views == Has("view") /\ Room /\ \E p \in Pick({q \in Dom \X {"view", "all", "trunc", "take", "real", "imag"} \X (0..2) : ViewOk(heap[q[1]], q[2], q[3])}) :
         LET i == p[1]  op == p[2]  n == p[3]  A == heap[i]  R == UnMeta(op, n, A)
         IN  /\ Keep(R, A.tr, A.buf, A.full /\ (op # "trunc" \/ A.lead = <<>>)) /\ tgt' = 0
             /\ Log([op |-> op, form |-> "", a |-> [i |-> i], n |-> n, id |-> Id])
MakeCopy == Has("copy") /\ Room /\ \E i \in Pick(Dom) : \E op \in Pick({"copy", "copy.copy", "deepcopy", "pickle", "zeros_like"} \cup (IF heap[i].k = "G" THEN {"ones_like"} ELSE {})) :
         \E n \in Pick(IF op = "pickle" THEN {0, 2, 5} ELSE {0}) :
         LET A == heap[i]  R == UnMeta(op, n, A)
         IN  /\ Keep(R, A.tr, Id, TRUE) /\ tgt' = 0
             /\ Log([op |-> op, form |-> "", a |-> [i |-> i], n |-> n, id |-> Id])
Write == Has("set") /\ \E i \in Pick({i \in Dom : Ab(heap[i].s) <= heap[i].L \/ heap[i].k = "G"}) : \E p \in Pick({0, 7, 23}) :
         /\ Log([op |-> "set", a |-> [i |-> i], p |-> p, z |-> <<2, -1>>, id |-> 0]) /\ UNCHANGED heap /\ tgt' = i

Steps == \/ Bin \/ BinS \/ BinI \/ BinSI \/ BinO \/ BinSO \/ Un \/ UnI \/ UnO \/ Views \/ MakeCopy \/ Write
\* (random behaviours: the kind of step first; new objects until there are two)
Classes == (IF BinOp = {} THEN {} ELSE {"bin"} \cup (IF Has("inplace") THEN {"bini"} ELSE {}) \cup (IF Has("out") THEN {"bino"} ELSE {}))
           \cup (IF BinOpS = {} THEN {} ELSE {"bins"} \cup (IF Has("inplace") THEN {"binsi"} ELSE {}) \cup (IF Has("out") THEN {"binso"} ELSE {}))
           \cup {"un", "new"} \cup (IF Ops \cap {"add", "mul"} = {} THEN {} ELSE {"un2"})
           \cup (IF Has("inplace") /\ Has("conj") THEN {"uni"} ELSE {}) \cup (IF Has("out") THEN {"uno"} ELSE {})
           \cup (IF Has("view") THEN {"views"} ELSE {}) \cup (IF Has("copy") THEN {"copies"} ELSE {}) \cup (IF Has("set") THEN {"write"} ELSE {})
OneOf(c) == CASE c = "bin" -> Bin [] c = "bins" -> BinS [] c = "bini" -> BinI [] c = "binsi" -> BinSI [] c = "bino" -> BinO [] c = "binso" -> BinSO
              [] c \in {"un", "un2"} -> Un [] c = "uni" -> UnI [] c = "uno" -> UnO [] c = "views" -> Views [] c = "copies" -> MakeCopy
              [] c = "write" -> Write [] c = "new" -> IF RandomElement(Kinds) = "M" THEN NewM ELSE NewG
Done == Len(hist) = DEPTH
Go == ~Done /\ IF ~SIM THEN (IF Len(heap) < 2 THEN NewM \/ NewG ELSE NewM \/ NewG \/ Steps)
               ELSE OneOf(IF Len(heap) < 2 THEN "new" ELSE RandomElement(Classes))
Emit == Done /\ PrintT("PLAN " \o ToJson(hist)) /\ UNCHANGED vars
Wait == SIM /\ ~Done /\ UNCHANGED vars
Next == Go \/ Emit \/ Wait
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- invariants
\* a Grid always has the points its spin weight needs, whatever was done to it
WellFormed == \A i \in 1..Len(heap) : LET o == heap[i] IN
                /\ o.k = "G" => o.nt >= 2*Ab(o.s) + 1 /\ o.np >= 2*Ab(o.s) + 1
                /\ o.k = "M" => o.L >= 0 /\ o.dt = "c"
\* an operation changes the description of its target only
Frame == [][\A i \in 1..Len(heap) : i # tgt' => heap'[i] = heap[i]]_vars
\* memory: an object never moves
Stays == [][\A i \in 1..Len(heap) : heap'[i].buf = heap[i].buf /\ heap'[i].k = heap[i].k /\ heap'[i].lead = heap[i].lead]_vars
\* directing a result into an object gives it the description the pure operation has, and never changes its size
SameSize == [][\A i \in 1..Len(heap) : heap'[i].L = heap[i].L /\ heap'[i].nt = heap[i].nt /\ heap'[i].np = heap[i].np /\ heap'[i].dt = heap[i].dt]_vars
================================================================================
