--------------------------------- MODULE Shapes ---------------------------------
(* Array shapes, broadcasting and row-major positions (numpy's rules).          *)
EXTENDS Integers, Sequences

RECURSIVE ProdFrom(_, _)
LOCAL ProdFrom(sh, i) == IF i > Len(sh) THEN 1 ELSE sh[i] * ProdFrom(sh, i+1)
NElem(sh) == ProdFrom(sh, 1)

\* dimension i of sh when it is read with n dimensions (1 where it has none)
LOCAL DimAt(sh, n, i) == IF i <= n - Len(sh) THEN 1 ELSE sh[i - (n - Len(sh))]
LOCAL MaxI(a, b) == IF a >= b THEN a ELSE b
CanBC(p, q) == LET n == MaxI(Len(p), Len(q))
               IN  \A i \in 1..n : LET x == DimAt(p, n, i)  y == DimAt(q, n, i) IN x = y \/ x = 1 \/ y = 1
BC(p, q) == LET n == MaxI(Len(p), Len(q))
            IN  [i \in 1..n |-> LET x == DimAt(p, n, i)  y == DimAt(q, n, i) IN IF x = 1 THEN y ELSE x]

RECURSIVE SrcFrom(_, _, _, _, _)
\* strip the dimensions from the last on: k = rest of the position in osh, w = weight reached in sh
LOCAL SrcFrom(sh, osh, i, k, w) ==
    IF i = 0 THEN 0
    ELSE LET j == i - (Len(osh) - Len(sh))
             c == k % osh[i]
         IN  IF j < 1 THEN 0
             ELSE (IF sh[j] = 1 THEN 0 ELSE c * w) + SrcFrom(sh, osh, i-1, k \div osh[i], w * sh[j])
\* position (from 0) in an array of shape sh of what stands at position k of its broadcast to osh
SrcPos(sh, osh, k) == SrcFrom(sh, osh, Len(osh), k, 1)

(* Selecting: a key has, for every dimension of sh, <<"i", k>> (one element,     *)
(* the dimension goes away) or <<"s", k1, k2, ..>> (some of them), and <<"n">>   *)
(* where a new dimension is to come                                              *)
RECURSIVE KeyShape(_)
KeyShape(key) == IF key = <<>> THEN <<>>
                 ELSE (CASE key[1][1] = "i" -> <<>> [] key[1][1] = "n" -> <<1>> [] OTHER -> <<Len(key[1]) - 1>>) \o KeyShape(Tail(key))
RECURSIVE KeyFrom(_, _, _, _, _, _)
LOCAL KeyFrom(key, sh, i, j, k, w) ==
    IF i = 0 THEN 0
    ELSE CASE key[i][1] = "n" -> KeyFrom(key, sh, i-1, j, k, w)
           [] key[i][1] = "i" -> key[i][2] * w + KeyFrom(key, sh, i-1, j-1, k, w * sh[j])
           [] OTHER -> LET n == Len(key[i]) - 1 IN key[i][2 + (k % n)] * w + KeyFrom(key, sh, i-1, j-1, k \div n, w * sh[j])
\* position in an array of shape sh of what stands at position k of the selection
KeyPos(key, sh, k) == KeyFrom(key, sh, Len(key), Len(sh), k, 1)

(* Transposing: dimension i of the result is dimension p[i] of sh                *)
PermShape(p, sh) == [i \in 1..Len(p) |-> sh[p[i]]]
RECURSIVE PermFrom(_, _, _, _)
LOCAL Weight(sh, i) == ProdFrom(sh, i + 1)
LOCAL PermFrom(p, sh, i, k) == IF i = 0 THEN 0 ELSE (k % sh[p[i]]) * Weight(sh, p[i]) + PermFrom(p, sh, i-1, k \div sh[p[i]])
PermPos(p, sh, k) == PermFrom(p, sh, Len(p), k)
================================================================================
