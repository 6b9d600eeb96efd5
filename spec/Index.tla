--------------------------------- MODULE Index ---------------------------------
(***************************************************************************)
(* The standard orders of mode indices, as walks: First, Next, Last of each *)
(* enumeration.  Position and size closed forms are what users rely on for  *)
(* addressing flat arrays; MCIndex checks them against the walk.            *)
(*                                                                         *)
(*  kind "LM"    (l, m)        l = lo..hi, m = -l..l                        *)
(*  kind "LMpM"  (l, m', m)    l = lo..hi, m' slow                          *)
(*  kind "Half"  (2l, 2m', 2m) 2l = lo..hi (doubled), steps of 2            *)
(*  kind "Wedge" (l, m', m)    l = lo..hi, m' = -l..l, m = |m'|..l          *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL IAbs(a) == IF a >= 0 THEN a ELSE -a
Kinds == {"LM", "LMpM", "Half", "Wedge"}

First(k, lo) == IF k = "LM" THEN <<lo, -lo>> ELSE IF k = "Wedge" THEN <<lo, -lo, lo>> ELSE <<lo, -lo, -lo>>
Last(k, hi) == IF k = "LM" THEN <<hi, hi>> ELSE <<hi, hi, hi>>
Succ(k, c) ==
    CASE k = "LM" -> IF c[2] < c[1] THEN <<c[1], c[2] + 1>> ELSE First(k, c[1] + 1)
      [] k = "LMpM" -> IF c[3] < c[1] THEN <<c[1], c[2], c[3] + 1>>
                       ELSE IF c[2] < c[1] THEN <<c[1], c[2] + 1, -c[1]>> ELSE First(k, c[1] + 1)
      [] k = "Half" -> IF c[3] < c[1] THEN <<c[1], c[2], c[3] + 2>>
                       ELSE IF c[2] < c[1] THEN <<c[1], c[2] + 2, -c[1]>> ELSE First(k, c[1] + 1)
      [] k = "Wedge" -> IF c[3] < c[1] THEN <<c[1], c[2], c[3] + 1>>
                        ELSE IF c[2] < c[1] THEN <<c[1], c[2] + 1, IAbs(c[2] + 1)>> ELSE First(k, c[1] + 1)

\* ------------------------------------------- sizes of whole enumerations
RECURSIVE SizeTo(_, _, _, _)
BlockSize(k, l) == CASE k = "LM" -> 2*l + 1 [] k = "LMpM" -> (2*l + 1)*(2*l + 1)
                     [] k = "Half" -> (l + 1)*(l + 1) [] k = "Wedge" -> (l + 1)*(l + 1)
SizeTo(k, lo, hi, acc) == IF lo > hi THEN acc ELSE SizeTo(k, lo + 1, hi, acc + BlockSize(k, lo))
Count(k, lo, hi) == SizeTo(k, lo, hi, 0)
\* position (from 0) of c in the enumeration that starts at lo
Within(k, c) == CASE k = "LM" -> c[1] + c[2]
                  [] k = "LMpM" -> (c[1] + c[2])*(2*c[1] + 1) + c[1] + c[3]
                  [] k = "Half" -> ((c[1] + c[2]) \div 2)*(c[1] + 1) + (c[1] + c[3]) \div 2
                  [] k = "Wedge" -> \* complete columns to the left of m', then m
                       (IF c[2] <= 0 THEN ((c[1] + c[2])*(c[1] + c[2] + 1)) \div 2
                        ELSE (c[1]*(c[1] + 1)) \div 2 + ((c[1] + 1)*(c[1] + 2) - (c[1] - c[2] + 1)*(c[1] - c[2] + 2)) \div 2)
                       + c[3] - IAbs(c[2])
Position(k, c, lo) == Count(k, lo, c[1] - 1) + Within(k, c)

\* the recorded rows are the enumeration from lo to hi
IsWalk(k, rows, lo, hi) ==
    IF lo > hi THEN rows = <<>>
    ELSE /\ Len(rows) > 0
         /\ rows[1] = First(k, lo)
         /\ \A i \in 1..Len(rows)-1 : rows[i+1] = Succ(k, rows[i])
         /\ rows[Len(rows)] = Last(k, hi)

(* the H symmetries relate (m',m) to (m,m'), (-m',-m), (-m,-m'); exactly the *)
(* orbit of an index meets the wedge, and any of its members there will do   *)
Orbit(c) == {<<c[1], c[2], c[3]>>, <<c[1], c[3], c[2]>>, <<c[1], -c[2], -c[3]>>, <<c[1], -c[3], -c[2]>>}
InWedge(c) == c[3] >= IAbs(c[2])
================================================================================
