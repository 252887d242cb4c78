------------------------------ MODULE LawsInv -------------------------------
(* Inverses: for every multivector with components in {-1,0,1}, M Adj(M) is *)
(* |ampSq(M)|^2, so M is invertible exactly when ampSq(M) is not zero; and  *)
(* a multivector with ampSq zero is a zero divisor (M Dirverse(M) = 0).     *)
EXTENDS Clifford, TLC
VARIABLE m
Digits == {-1, 0, 1}
\* chosen in two steps, so that TLC's workers share the enumeration
Init == \E a, b, c \in Digits : m = <<a, b, c>>
Next == Len(m) = 3 /\ \E d, e, f, g, h \in Digits : m' = m \o <<d, e, f, g, h>>
Spec == Init /\ [][Next]_m
S == AmpSq(m)
N2 == S[1] * S[1] + S[8] * S[8]
Inverses == Len(m) = 8 =>
  /\ Mul(m, Adj(m)) = Scale(N2, MVOne)
  /\ Mul(Adj(m), m) = Scale(N2, MVOne)
  /\ InGrades(S, {0, 3})
  /\ (N2 = 0) => Mul(m, Dirverse(m)) = MVZero /\ Mul(Dirverse(m), m) = MVZero
  /\ InGrades(m, {0, 2}) \/ InGrades(m, {1, 3}) => (N2 = 0 <=> m = MVZero)   \* versors: only zero
=============================================================================
