------------------------------- MODULE MCFieldLaws -------------------------------
(***************************************************************************)
(* Laws of the operations on spin-weighted functions as specified in         *)
(* Fields: they are what makes those definitions the pointwise operations.    *)
(*                                                                         *)
(* The states are the pairs of functions up to ell LL of every spin weight    *)
(* |s| <= SS: every single mode (with a complex weight), and one function     *)
(* per spin weight with all weights different from zero.                      *)
(***************************************************************************)
EXTENDS FieldApi
CONSTANTS LL, SS, Dense

\* ------------------------------------------------------------- functions
Zs(L) == [i \in 1..(L+1)*(L+1) |-> CZero]
Mode(s, l, m) == [s |-> s, L |-> LL, v |-> [Zs(LL) EXCEPT ![LMi(l, m)] = <<FxInt(2), FxRat(-3, 2)>>]]
\* numbers without pattern
Full(s, L) == [s |-> s, L |-> L, v |-> [i \in 1..(L+1)*(L+1) |->
                 IF LMTab[i][1] < Abs(s) THEN CZero ELSE <<FxRat(((i*i*7 + 3*i + s) % 11) - 5, 4), FxRat(((i*i*i + 5*i - s) % 13) - 6, 8)>>]]
Names == {<<s, l, m>> \in (-SS..SS) \X (0..LL) \X (-LL..LL) : l >= Abs(s) /\ Abs(m) <= l}
         \cup (IF Dense THEN {<<s, -1, 0>> : s \in {x \in -SS..SS : Abs(x) <= LL}} ELSE {})
Fun(n) == IF n[2] = -1 THEN Full(n[1], LL) ELSE Mode(n[1], n[2], n[3])

VARIABLES vA, vB
Init == vA \in Names /\ vB = <<>>
Next == vB = <<>> /\ vB' \in Names /\ UNCHANGED vA
Spec == Init /\ [][Next]_<<vA, vB>>
LOCAL One1 == vB = <<>>
LOCAL Pair == vB # <<>>

LOCAL Eps == FxTen(35)
Same(f, g) == f.s = g.s /\ LET n == Max(f.L, g.L) IN
                \A i \in 1..(n+1)*(n+1) : CNear(MW(f, LMTab[i][1], LMTab[i][2]), MW(g, LMTab[i][1], LMTab[i][2]), Eps)
Pl(f, g) == Field(f.s, Max(f.L, g.L), PAdd(f, g))
Mi(f, g) == Field(f.s, Max(f.L, g.L), PSub(f, g))
Ng(f) == Field(f.s, f.L, PNeg(f))
Cj(f) == Field(-f.s, f.L, PConj(f))
Sc(c, f) == Field(f.s, f.L, PScale(f, c))
Dv(op, f) == Field(SpinOf(op, f.s), f.L, Deriv(op, f))
Pr(f, g) == TLCEval(Field(f.s + g.s, f.L + g.L, PMul(f, g, f.L + g.L)))
RInt(n) == CReal(FxInt(n))

\* ------------------------------------------------------------ conjugation
(* conj is an involution; real and imaginary part recombine, and are real      *)
ConjLaws == One1 => \A f \in {Fun(vA)} :
    /\ Same(Cj(Cj(f)), f)
    /\ f.s = 0 => LET re == Field(0, f.L, PReal(f))  im == Field(0, f.L, PImag(f))
                  IN  /\ Same(Pl(re, Sc(<<FxZero, FxOne>>, im)), f)
                      /\ Same(Cj(re), re) /\ Same(Cj(im), im)
                      /\ Same(Pl(f, Cj(f)), Sc(RInt(2), re))
    /\ FxNear(NormVal(Cj(f)), NormVal(f), Eps)
LinLaws == Pair /\ vA[1] = vB[1] => \A f \in {Fun(vA)} : \A g \in {Fun(vB)} :
    /\ Same(Pl(f, g), Pl(g, f)) /\ Same(Mi(f, g), Pl(f, Ng(g))) /\ Same(Mi(Pl(f, g), g), f)
    /\ Same(Cj(Pl(f, g)), Pl(Cj(f), Cj(g)))
    /\ LET c == <<FxRat(1, 3), FxInt(-2)>> IN /\ Same(Sc(c, Pl(f, g)), Pl(Sc(c, f), Sc(c, g)))
                                              /\ Same(Field(f.s, f.L, PDivide(Sc(c, f), c)), f)
    \* the triangle inequality
    /\ BLeq(NormVal(Pl(f, g)), FxAdd(FxAdd(NormVal(f), NormVal(g)), Eps))

\* ------------------------------------------------------------- derivatives
(* the algebra of the angular momentum operators, [L_a, R_b] = 0 included       *)
Comm(a, b, f) == Mi(Dv(a, Dv(b, f)), Dv(b, Dv(a, f)))
DerivLaws == One1 => \A f \in {Fun(vA)} :
    /\ Same(Comm("Lz", "Lp", f), Dv("Lp", f)) /\ Same(Comm("Lz", "Lm", f), Ng(Dv("Lm", f)))
    /\ Same(Comm("Lp", "Lm", f), Sc(RInt(2), Dv("Lz", f)))
    /\ Same(Dv("L2", f), Pl(Dv("Lz", Dv("Lz", f)), Sc(CReal(FxRat(1, 2)), Pl(Dv("Lp", Dv("Lm", f)), Dv("Lm", Dv("Lp", f))))))
    /\ Same(Dv("R2", f), Dv("L2", f))
    /\ Same(Dv("R2", f), Pl(Dv("Rz", Dv("Rz", f)), Sc(CReal(FxRat(1, 2)), Pl(Dv("Rp", Dv("Rm", f)), Dv("Rm", Dv("Rp", f))))))
    \* R+ lowers s, R- raises it (and Rz = -s): [Rz, R+] = R+, [Rz, R-] = -R-, [R+, R-] = 2 Rz
    /\ Same(Comm("Rz", "Rp", f), Dv("Rp", f)) /\ Same(Comm("Rz", "Rm", f), Ng(Dv("Rm", f)))
    /\ Same(Comm("Rp", "Rm", f), Sc(RInt(2), Dv("Rz", f)))
    /\ Same(Dv("eth", f), Dv("Rm", f)) /\ Same(Dv("ethbar", f), Ng(Dv("Rp", f)))
    \* [ethbar, eth] = 2 s
    /\ Same(Comm("ethbar", "eth", f), Sc(RInt(2*f.s), f))
    \* conj(eth f) = ethbar(conj f)
    /\ Same(Cj(Dv("eth", f)), Dv("ethbar", Cj(f)))
    /\ \A a \in {"Lz", "Lp", "Lm"} : \A b \in {"Rz", "Rp", "Rm"} : LET k == Comm(a, b, f) IN Same(k, Field(k.s, k.L, [i \in 1..Len(k.v) |-> <<CZero, FxZero>>]))

\* ---------------------------------------------------------------- products
(* commutative, compatible with conj, a derivation for eth and ethbar and the   *)
(* L operators; the (0,0) mode of f conj(f) is the squared norm over sqrt(4 pi) *)
ProductLaws == Pair => \A f \in {Fun(vA)} : \A g \in {Fun(vB)} :
    LET fg == Pr(f, g) IN
    /\ Same(fg, Pr(g, f))
    /\ Same(Cj(fg), Pr(Cj(f), Cj(g)))
Leibniz == Pair => \A f \in {Fun(vA)} : \A g \in {Fun(vB)} :
    LET fg == Pr(f, g) IN
    \A op \in {"eth", "ethbar", "Lz", "Lp", "Lm"} : Same(Dv(op, fg), Pl(Pr(Dv(op, f), g), Pr(f, Dv(op, g))))
Norms == One1 => \A f \in {Fun(vA)} :
    CNear(CScale(FxSqrt(FxMulInt(FxPi, 4)), MW(Pr(f, Cj(f)), 0, 0)), CReal(FxMul(NormVal(f), NormVal(f))), Eps)

\* -------------------------------------------------------------- evaluation
Rots == { <<1,0,0,0,1>>, <<0,0,1,0,1>>, <<1,1,1,1,2>>, <<2,3,6,0,7>>, <<1,2,-4,2,5>> }
LOCAL RTab(q) == RotorTables(<<FxRat(q[1], q[5]), FxRat(q[4], q[5])>>, <<FxRat(q[3], q[5]), FxRat(q[2], q[5])>>, 4*LL + 1)
Ev(f, t) == PEval(f, t)[1]
(* the value of a product is the product of the values; conj and sums, likewise;  *)
(* a rotation about z by an angle e^{i a/2} multiplies the value by e^{-i s a}    *)
Pointwise == Pair => \A f \in {Fun(vA)} : \A g \in {Fun(vB)} : LET fg == Pr(f, g) IN
    \A q \in Rots : \A t \in {RTab(q)} : \A x \in {Ev(f, t)} : \A y \in {Ev(g, t)} :
        /\ CNear(Ev(fg, t), CMul(x, y), Eps)
        /\ f.s = g.s => CNear(Ev(Pl(f, g), t), CAdd(x, y), Eps)
(* the numbers of a grid are the values at its points                            *)
GridLaw == One1 => \A f \in {Fun(vA)} : \A nt \in {2*LL + 1, 2*LL + 2} : LET np == nt + 1  g == GridCell(f, nt, np) IN
        \A i \in 1..(nt*np) : CNear(g[i][1], Ev(f, PointTables((i-1) \div np, (i-1) % np, nt, np, 4*LL + 1)), Eps)
EvalLaws == One1 => \A f \in {Fun(vA)} : \A q \in Rots : \A t \in {RTab(q)} : \A x \in {Ev(f, t)} :
        /\ CNear(Ev(Cj(f), t), CConj(x), Eps)
        /\ CNear(Ev(Sc(<<FxRat(1, 3), FxInt(-2)>>, f), t), CMul(<<FxRat(1, 3), FxInt(-2)>>, x), Eps)
        \* R exp(gamma z/2), with exp(gamma z/2) = (3 + 4k)/5, e^{-i gamma} = ((3-4i)/5)^2
        /\ LET ph == CPowers(<<FxRat(3, 5), FxRat(-4, 5)>>, 2*SS)
               qz == <<3*q[1] - 4*q[4], 3*q[2] + 4*q[3], 3*q[3] - 4*q[2], 3*q[4] + 4*q[1], 5*q[5]>>
               w  == ph[2*Abs(f.s) + 1]
           IN  CNear(Ev(f, RTab(qz)), CMul(IF f.s >= 0 THEN w ELSE CConj(w), x), Eps)
================================================================================
