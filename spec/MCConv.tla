--------------------------------- MODULE MCConv ---------------------------------
(***************************************************************************)
(* The free functions as a machine: an array of any kind is made, and the    *)
(* functions that fit are applied one after another.  Laws are checked in    *)
(* every state; every behaviour of full length is a plan for the real code.  *)
(***************************************************************************)
EXTENDS Conv, Json
CONSTANTS DEPTH, SMAX, LOMAX, LMAX
VARIABLES arr, word, from
vars == <<arr, word, from>>
\* some numbers
Num(i) == <<FxRat(((7*i) % 11) - 5, 4), FxRat(((5*i) % 13) - 6, 8)>>
Rots == { <<1,0,0,0,1>>, <<0,1,0,0,1>>, <<1,1,1,1,2>>, <<3,0,4,0,5>>, <<2,3,6,0,7>>, <<1,2,-4,2,5>>, <<-4,0,0,3,5>> }
ModesA(s, lo, hi) == [k |-> "modes", s |-> s, lo |-> lo, hi |-> hi,
                      v |-> [i \in 1..(hi+1)*(hi+1) - lo*lo |-> IF LOfRow(lo, i) < Abs(s) THEN CZero ELSE Num(i)]]
Init == /\ word = <<>>
        /\ \/ \E s \in -SMAX..SMAX : \E lo \in 0..LOMAX : \E hi \in lo..LMAX : arr = ModesA(s, lo, hi)
           \/ \E i \in 1..3 : arr = [k |-> "const", s |-> 0, lo |-> 0, hi |-> 0, v |-> <<Num(i), Num(i+3)>>]
           \/ \E i \in 1..3 : arr = [k |-> "vec", s |-> 0, lo |-> 1, hi |-> 1, v |-> [j \in 1..6 |-> Num(i + 2*j)]]
           \/ \E i \in 1..3 : arr = [k |-> "ell0", s |-> 0, lo |-> 0, hi |-> 0, v |-> <<Num(i), Num(i+3)>>]
           \/ \E i \in 1..3 : arr = [k |-> "ell1", s |-> 0, lo |-> 1, hi |-> 1, v |-> [j \in 1..6 |-> Num(i + 2*j)]]
        /\ from = [k |-> arr.k, s |-> arr.s, lo |-> arr.lo, hi |-> arr.hi]
Fits == {op \in EthOps \cup ConvOps : KindIn(op) = arr.k}
Next == IF Len(word) = DEPTH THEN PrintT("PLAN " \o ToJson([from |-> from, word |-> word])) /\ UNCHANGED vars
        ELSE \E op \in Fits : /\ arr' = [arr EXCEPT !.k = KindOut(op), !.s = IF op \in EthOps THEN To(op, @) ELSE @, !.v = TLCEval(Image(op, arr))]
                              /\ word' = Append(word, op) /\ UNCHANGED from
Spec == Init /\ [][Next]_vars

LOCAL Nr(x, y) == CNear(x, y, FxTen(40))
LOCAL NrAll(v, w) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Nr(v[i], w[i])
On(op, a) == [a EXCEPT !.k = KindOut(op), !.s = IF op \in EthOps THEN To(op, @) ELSE @, !.v = Image(op, a)]
Times(n, v) == [i \in 1..Len(v) |-> CScaleInt(n, v[i])]
Minus(v, w) == [i \in 1..Len(v) |-> CSub(v[i], w[i])]
\* [ethbar, eth] f = 2 s f
Commutator == arr.k = "modes" => NrAll(Minus(On("ethbar_NP", On("eth_NP", arr)).v, On("eth_NP", On("ethbar_NP", arr)).v), Times(2*arr.s, arr.v))
\* GHP is NP over the root of 2: composed twice, over 2
Halves == arr.k = "modes" => /\ NrAll(Times(2, On("ethbar_GHP", On("eth_GHP", arr)).v), On("ethbar_NP", On("eth_NP", arr)).v)
                             /\ NrAll(Times(2, On("eth_GHP", On("eth_GHP", arr)).v), On("eth_NP", On("eth_NP", arr)).v)
\* ethbar undoes its inverse, on all modes there can be, and the other way round
Inverse == arr.k = "modes" =>
             LET v == On("ethbar_NP", On("ethbar_inverse_NP", arr)).v
                 w == On("ethbar_inverse_NP", On("ethbar_NP", arr)).v
             IN  \A i \in 1..Len(v) : LET l == LOfRow(arr.lo, i) IN
                   /\ Nr(v[i], IF Exists("eth_NP", arr.s, l) THEN arr.v[i] ELSE CZero)
                   /\ Nr(w[i], IF Exists("ethbar_NP", arr.s, l) THEN arr.v[i] ELSE CZero)
\* no modes below the spin weight
NoLow == arr.k = "modes" => \A i \in 1..Len(arr.v) : LOfRow(arr.lo, i) < Abs(arr.s) => arr.v[i] = CZero
\* the same operators as those of Fields
SameAsFields == arr.k = "modes" /\ arr.lo = 0 =>
                  LET f == [s |-> arr.s, L |-> arr.hi, v |-> arr.v]
                  IN  NrAll(On("eth_NP", arr).v, Vals(Deriv("eth", f))) /\ NrAll(On("ethbar_NP", arr).v, Vals(Deriv("ethbar", f)))
RoundTrip == /\ arr.k = "const" => NrAll(On("constant_from_ell_0_mode", On("constant_as_ell_0_mode", arr)).v, arr.v)
             /\ arr.k = "ell0" => NrAll(On("constant_as_ell_0_mode", On("constant_from_ell_0_mode", arr)).v, arr.v)
             /\ arr.k = "vec" => NrAll(On("vector_from_ell_1_modes", On("vector_as_ell_1_modes", arr)).v, arr.v)
             /\ arr.k = "ell1" => NrAll(On("vector_as_ell_1_modes", On("vector_from_ell_1_modes", arr)).v, arr.v)
(* the function of a vector is v.n, n the direction the rotor takes z to; that  *)
(* of a constant is the constant                                                *)
Tab(q) == LET F(i) == FxRat(q[i], q[5]) IN RotorTables(<<F(1), F(4)>>, <<F(3), F(2)>>, 5)
Dir(q) == LET d == q[5]*q[5] IN << FxRat(2*(q[2]*q[4] + q[1]*q[3]), d), FxRat(2*(q[3]*q[4] - q[1]*q[2]), d),
                                   FxRat(q[1]*q[1] - q[2]*q[2] - q[3]*q[3] + q[4]*q[4], d) >>
Meaning == /\ arr.k = "vec" =>
                LET c == On("vector_as_ell_1_modes", arr).v
                IN  \A q \in Rots : \A i \in 0..(Len(c) \div 3) - 1 :
                      LET n == Dir(q)  v == [j \in 1..3 |-> arr.v[3*i + j]]
                      IN  Nr(PEval([s |-> 0, L |-> 1, v |-> <<CZero, c[3*i+1], c[3*i+2], c[3*i+3]>>], Tab(q))[1],
                             CAdd(CScale(n[1], v[1]), CAdd(CScale(n[2], v[2]), CScale(n[3], v[3]))))
           /\ arr.k = "const" =>
                LET c == On("constant_as_ell_0_mode", arr).v
                IN  \A q \in Rots : \A i \in 1..Len(c) : Nr(PEval([s |-> 0, L |-> 0, v |-> <<c[i]>>], Tab(q))[1], arr.v[i])
================================================================================
