-------------------------------- MODULE MCIndex --------------------------------
(* Walks every enumeration from every lo up to HI; the position closed forms   *)
(* and sizes must agree with the walk, and no index may be visited twice.      *)
EXTENDS Index, TLC
CONSTANT HI
VARIABLES k, lo, c, pos
vars == <<k, lo, c, pos>>
Init == /\ k \in Kinds /\ lo \in 0..HI /\ c = First(k, lo) /\ pos = 0
Next == /\ c # Last(k, HI)
        /\ c' = Succ(k, c) /\ pos' = pos + 1 /\ UNCHANGED <<k, lo>>
Spec == Init /\ [][Next]_vars
TypeOK == c[1] \in lo..HI /\ \A i \in 2..Len(c) : c[i] >= -c[1] /\ c[i] <= c[1]
PositionOK == pos = Position(k, c, lo)
SizeOK == c = Last(k, c[1]) => pos + 1 = Count(k, lo, c[1])
\* the closed forms used by the API documentation
FormsOK ==
    CASE k = "LM" -> /\ pos = c[1]*(c[1]+1) - lo*lo + c[2]
                     /\ Count(k, lo, c[1]) = c[1]*(c[1]+2) - lo*lo + 1
      [] k = "LMpM" -> /\ 3*pos = ((4*c[1] + 6)*c[1] + 6*c[2] + 5)*c[1] + lo*(1 - 4*lo*lo) + 3*(c[2] + c[3])
                       /\ 3*Count(k, lo, c[1]) = ((4*c[1] + 12)*c[1] + 11)*c[1] + (1 - 4*lo*lo)*lo + 3
      [] k = "Half" -> 6*Count(k, lo, c[1]) = (2*c[1]+3)*(c[1]+2)*(c[1]+1) - (2*lo+1)*(lo+1)*lo
      [] k = "Wedge" -> /\ InWedge(c)
                        /\ 6*Count(k, 0, c[1]) = (c[1]+1)*(c[1]+2)*(2*c[1]+3)
                        /\ \A d \in Orbit(c) : InWedge(d) => d \in {c, <<c[1], c[3], c[2]>>, <<c[1], -c[2], -c[3]>>, <<c[1], -c[3], -c[2]>>}
\* every (l,m',m) has a representative in the wedge
OrbitOK == k = "LMpM" => \E d \in Orbit(c) : InWedge(d)
================================================================================
