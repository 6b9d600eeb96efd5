---------------------------------- MODULE MCH ----------------------------------
(***************************************************************************)
(* (a) Laws of H as specified: the four symmetries of the documentation, at  *)
(*     rational points of the circle, for all l <= LMAX.                     *)
(* (b) The machine of calculators and workspaces: two calculators, two       *)
(*     workspaces; a workspace fits a calculator with the same size and      *)
(*     shape only.  Its behaviours of length DEPTH are plans.                *)
(***************************************************************************)
EXTENDS HApi, Json
CONSTANTS LMAX, DEPTH
\* (cos, sin) = ((1-t^2)/(1+t^2), 2t/(1+t^2)), t = p/q
Pts == {<<0, 1>>, <<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<-1, 3>>, <<3, 1>>}
CosOf(p) == FxRat(p[2]*p[2] - p[1]*p[1], p[2]*p[2] + p[1]*p[1])
SinOf(p) == FxRat(2*p[1]*p[2], p[2]*p[2] + p[1]*p[1])
Tb(p) == BetaTables(CosOf(p), SinOf(p), 2*LMAX + 1)
TbNeg(p) == BetaTables(CosOf(p), BNeg(SinOf(p)), 2*LMAX + 1)
TbSup(p) == BetaTables(BNeg(CosOf(p)), SinOf(p), 2*LMAX + 1)
LOCAL Eps40 == FxTen(40)
LOCAL Nr(a, b) == FxNear(a, b, Eps40)
LOCAL Sg(k, x) == IF k % 2 = 0 THEN x ELSE BNeg(x)
Laws(p) ==
    LET t == Tb(p)  tn == TbNeg(p)  tp == TbSup(p)
    IN  \A l \in 0..LMAX : \A a \in -l..l : \A b \in -l..l :
            LET v == H(t, <<l, a, b>>)
            IN  /\ Nr(v, H(t, <<l, b, a>>)) /\ Nr(v, H(t, <<l, -a, -b>>))
                /\ Nr(v, Sg(a + b, H(tn, <<l, a, b>>)))
                /\ BSgn(SinOf(p)) >= 0 => Nr(v, Sg(l + a + b, H(tp, <<l, -a, b>>)))
                /\ (a = 0 /\ b = 0 /\ l = 1) => Nr(v, CosOf(p))

VARIABLES hist, cal, ws
vars == <<hist, cal, ws>>
Init == hist = <<>> /\ cal = [i \in {} |-> 0] /\ ws = [i \in {} |-> 0]
NewCal == \E im \in {"wedge", "full"} : \E n \in {0, 1, 3} :
              /\ Len(hist) < 2 /\ LET i == Len(hist) + 1 IN
                 /\ cal' = [c \in DOMAIN cal \cup {i} |-> IF c = i THEN <<im, n>> ELSE cal[c]]
                 /\ hist' = Append(hist, [a |-> "new", id |-> i, impl |-> im, n |-> n])
              /\ ws' = ws
Small == IF DEPTH > 5 THEN {0, 2, 3} ELSE {0, 2}
NewWs == \E i \in DOMAIN cal : \E sh \in Small :
              /\ Len(hist) = 2
              /\ ws' = [w \in {1} |-> <<cal[i], sh>>]
              /\ hist' = Append(hist, [a |-> "ws", id |-> i, w |-> 1, sh |-> sh, d |-> sh % 2])
              /\ cal' = cal
Call == \E i \in DOMAIN cal : \E sh \in Small : \E w \in DOMAIN ws \cup {0} :
              /\ Len(hist) >= 3
              /\ IF w = 0 THEN TRUE ELSE ws[w] = <<cal[i], sh>>
              /\ hist' = Append(hist, [a |-> "call", id |-> i, w |-> w, sh |-> sh])
              /\ UNCHANGED <<cal, ws>>
Done == Len(hist) = DEPTH
Next == IF Done THEN PrintT("PLAN " \o ToJson(hist)) /\ UNCHANGED vars ELSE NewCal \/ NewWs \/ Call
Spec == Init /\ [][Next]_vars
LawsOK == hist = <<>> => \A p \in Pts : Laws(p)
\* a workspace is only ever used by a calculator it fits
Fits == \A k \in 1..Len(hist) : hist[k].a = "call" /\ hist[k].w # 0 => ws[hist[k].w] = <<cal[hist[k].id], hist[k].sh>>
=================================================================================
