------------------------------ MODULE Rotations ------------------------------
(***************************************************************************)
(* The rotation group generated by quarter turns in the basis planes, as a *)
(* state machine.  A state is the orientation reached, held as an integer  *)
(* spinor S with S reverse(S) = 2^n (the unnormalised product of 1 - e_ij  *)
(* or 1 + e_ij), together with the path of turns that led there.           *)
(*                                                                         *)
(* A turn by +1 about plane k is  v -> (1 - e_k) v (1 + e_k) / 2, which    *)
(* takes the plane's first axis to its second (e1 to e2 for e12).          *)
(***************************************************************************)
EXTENDS Clifford, TLC
CONSTANT MaxLen
VARIABLES path, S, axes

Planes == 5..7                                \* e23, e31, e12
Turns == {<<k, d>> : k \in Planes, d \in {-1, 1}}
Factor(t) == Sum(MVOne, IF t[2] = 1 THEN Minus(Basis(t[1])) ELSE Basis(t[1]))
Sandwich(s, v) == Mul(Mul(s, v), Reverse(s))
Halve(v) == Map8(LAMBDA k : v[k] \div 2)
\* one turn on the images of the axes
TurnAxes(t, x) == [i \in 1..3 |-> Halve(Sandwich(Factor(t), x[i]))]
Start == [i \in 1..3 |-> Basis(i + 1)]

Init == path = <<>> /\ S = MVOne /\ axes = Start
Turn == Len(path) < MaxLen /\ \E t \in Turns :
          /\ path' = Append(path, t)
          /\ S' = Mul(Factor(t), S)
          /\ axes' = TurnAxes(t, axes)
Next == Turn
Spec == Init /\ [][Next]_<<path, S, axes>>

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* the accumulated spinor acts as the sequence of turns: composition
Composes == \A i \in 1..3 : Sandwich(S, Basis(i + 1)) = Map8(LAMBDA k : Pow2(Len(path)) * axes[i][k])
\* isometric, orientation and grade preserving
Proper == /\ \A i, j \in 1..3 : Dot(<<<<axes[i][2], axes[j][2]>>, <<axes[i][3], axes[j][3]>>, <<axes[i][4], axes[j][4]>>>>) = (IF i = j THEN 1 ELSE 0)
          /\ Mul(Mul(axes[1], axes[2]), axes[3]) = I
          /\ \A i \in 1..3 : InGrades(axes[i], {1})
\* the reverse of the spinor undoes it
Inverse == \A i \in 1..3 : Sandwich(Reverse(S), axes[i]) = Map8(LAMBDA k : Pow2(Len(path)) * Basis(i + 1)[k])
=============================================================================
