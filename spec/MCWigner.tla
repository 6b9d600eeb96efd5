-------------------------------- MODULE MCWigner --------------------------------
(***************************************************************************)
(* Laws of D and sYlm as specified, on rational rotors: the representation   *)
(* property D(R1 R2) = D(R1) D(R2), unitarity, D(-R) = (-1)^(2l) D(R), the   *)
(* conjugation symmetry, sum rule and conjugation of sYlm; for all 2l <= LL. *)
(***************************************************************************)
EXTENDS WignerApi
CONSTANT LL
Rots == { <<1,0,0,0,1>>, <<0,1,0,0,1>>, <<0,0,1,0,1>>, <<0,0,0,-1,1>>, <<1,1,1,1,2>>, <<3,0,4,0,5>>, <<2,3,6,0,7>>,
          <<1,2,-4,2,5>>, <<-4,0,0,3,5>> }
\* (distinctive names: TLC does not pre-evaluate constants whose parameters share a variable name)
VARIABLES vA, vB, vL
vars == <<vA, vB, vL>>
Init == vA \in Rots /\ vB \in Rots /\ vL = 0
Next == vL < LL /\ vL' = vL + 1 /\ UNCHANGED <<vA, vB>>
Spec == Init /\ [][Next]_vars

Fq(q) == <<FxRat(q[1], q[5]), FxRat(q[2], q[5]), FxRat(q[3], q[5]), FxRat(q[4], q[5])>>
Tab(q) == LET f == Fq(q) IN RotorTables(<<f[1], f[4]>>, <<f[3], f[2]>>, 2*LL + 1)
Times(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4], p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                  p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2], p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1], p[5]*q[5] >>
Inv(p) == <<p[1], -p[2], -p[3], -p[4], p[5]>>
Minus(p) == <<-p[1], -p[2], -p[3], -p[4], p[5]>>
LOCAL Eps == FxTen(40)
LOCAL Nr(x, y) == CNear(x, y, Eps)
Ms == {m \in -vL..vL : (vL - m) % 2 = 0}
RECURSIVE Sum(_, _, _, _, _)
LOCAL Sum(ta, tb, mp, m, k) == IF k > vL THEN CZero ELSE CAdd(CMul(D(ta, vL, mp, k), D(tb, vL, k, m)), Sum(ta, tb, mp, m, k+2))
Representation == \A ta \in {Tab(vA)} : \A tb \in {Tab(vB)} : \A tc \in {Tab(Times(vA, vB))} :
                      \A mp \in Ms : \A m \in Ms : Nr(D(tc, vL, mp, m), Sum(ta, tb, mp, m, -vL))
Sg(k, z) == IF k % 2 = 0 THEN z ELSE CNeg(z)
Symmetries == vA = vB => LET t == Tab(vA)  ti == Tab(Inv(vA))  tm == Tab(Minus(vA))
              IN  \A mp \in Ms : \A m \in Ms :
                    LET d == D(t, vL, mp, m)
                    IN  /\ Nr(D(ti, vL, mp, m), CConj(D(t, vL, m, mp)))
                        /\ Nr(D(tm, vL, mp, m), Sg(vL, d))
                        /\ Nr(D(t, vL, -mp, -m), CConj(Sg((mp - m) \div 2, d)))
                        /\ LET p == DPair(t, vL, mp, m) IN BLeq(CMaxAbs(p[1]), BAdd(p[2], Eps))
RECURSIVE YSq(_, _, _, _)
LOCAL YSq(t, s, l, m) == IF m > l THEN FxZero ELSE BAdd(CNormSq(SYlm(t, s, l, m)), YSq(t, s, l, m+1))
Harmonics == (vA = vB /\ vL % 2 = 0) => \A t \in {Tab(vA)} : \A l \in {vL \div 2} :
        \A s \in -l-1..l+1 :
            /\ FxNear(YSq(t, s, l, -l), IF Abs(s) <= l THEN FxMul(YNorms[l+1], YNorms[l+1]) ELSE FxZero, Eps)
            /\ \A m \in -l..l : Nr(CConj(SYlm(t, s, l, m)), Sg(s + m, SYlm(t, -s, l, -m)))
===============================================================================
