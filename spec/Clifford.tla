------------------------------ MODULE Clifford ------------------------------
(***************************************************************************)
(* Multivectors over a commutative ring, as 8-tuples in canonical order.   *)
(* The ring is module Ring, of which there are two: TLC's integers         *)
(* (ring_int) for exhaustive law checking and exact dyadic rationals       *)
(* (ring_dyadic) for judging recorded doubles.                             *)
(***************************************************************************)
EXTENDS GTypes, Ring

MVZero == <<Zero, Zero, Zero, Zero, Zero, Zero, Zero, Zero>>
Map8(F(_)) == <<F(1), F(2), F(3), F(4), F(5), F(6), F(7), F(8)>>
Basis(k) == Map8(LAMBDA i : IF i = k THEN One ELSE Zero)
MVOne == Basis(1)
I == Basis(Pseudo)

\* the terms <<x, y>> whose products add up to component k of a b
Terms(a, b, k) ==
  LET s == Sig[k] p == Par[k]
      T(i) == <<IF s[i] = 1 THEN a[i] ELSE Neg(a[i]), b[p[i]]>>
  IN <<T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8)>>
Mul(a, b) == Map8(LAMBDA k : Dot(Terms(a, b, k)))
Sum(a, b) == Map8(LAMBDA k : Add(a[k], b[k]))
Minus(a) == Map8(LAMBDA k : Neg(a[k]))
Dif(a, b) == Map8(LAMBDA k : Add(a[k], Neg(b[k])))
Signed(a, S(_)) == Map8(LAMBDA k : IF S(k) = 1 THEN a[k] ELSE Neg(a[k]))
Reverse(a) == Signed(a, RevSign)
Oddverse(a) == Signed(a, OddSign)
Dirverse(a) == Signed(a, DirSign)
DualOf(a) == Mul(a, I)
Scale(x, a) == Map8(LAMBDA k : Dot(<<<<x, a[k]>>>>))
MagSq(a) == Dot(<<<<a[1], a[1]>>, <<a[2], a[2]>>, <<a[3], a[3]>>, <<a[4], a[4]>>,
                  <<a[5], a[5]>>, <<a[6], a[6]>>, <<a[7], a[7]>>, <<a[8], a[8]>>>>)
\* squared amplitude: the product with the Clifford conjugate
AmpSq(a) == Mul(a, Dirverse(a))
\* part of a in grades g
Part(a, g) == Map8(LAMBDA k : IF GradeOf(k) \in g THEN a[k] ELSE Zero)
InGrades(a, g) == \A k \in K : GradeOf(k) \in g \/ a[k] = Zero
\* adjugate: inverse of M is Adj(M) / |ampSq|^2 when ampSq is invertible
Adj(a) == Mul(Oddverse(Reverse(a)), Reverse(AmpSq(a)))
\* embed the component sequence c of a value of type t
Embed(t, c) ==
  LET p == Pos(t) IN Map8(LAMBDA k : IF p[k] = 0 THEN Zero ELSE c[p[k]])
\* the component sequence of type t of multivector a
Project(t, a) == [n \in 1..Dim(t) |-> a[Layout(t)[n]]]
=============================================================================
