----------------------------- MODULE SeriesTest -----------------------------
(***************************************************************************)
(* The series evaluator against the laws that characterise the exponential *)
(* on the exact-arithmetic side: exp(0) = 1, e^A e^-A = 1, e^(2A) =        *)
(* (e^A)^2, e^(A+C) = e^A e^C for commuting C, and pi: e^(pi I) = -1.      *)
(***************************************************************************)
EXTENDS Series
VARIABLE m
V == {DInt(0), DInt(1), DScale(DInt(-3), -1), DScale(DInt(11), 1), DScale(DInt(5), -40)}
Close(a, b, bits) == LET n == DAdd(DAdd(MagSq(a), MagSq(b)), DOne) IN \A k \in K : DLeq(DSq(DSub(a[k], b[k])), DScale(n, -2 * bits))
Init == \E a, b, c, d \in V : m \in {<<a, b, c, DZero, d, DZero, b, c>>, <<DZero, a, DZero, DZero, DZero, b, DZero, DZero>>,
                                     <<a, DZero, DZero, DZero, b, c, d, DZero>>}
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Laws ==
  LET e == MVExp(m) f == MVExp(Minus(m)) IN
  /\ DLt(MagSq(Map8(LAMBDA k : DSub(Mul(e, f)[k], MVOne[k]))), DScale(DMul(DAdd(MagSq(e), DOne), DAdd(MagSq(f), DOne)), -300))
  /\ Close(MVExp(ScaleP(m, 1)), Mul(e, e), 100)
  /\ LET C == <<m[2], DZero, DZero, DZero, DZero, DZero, DZero, m[5]>> IN
     Close(MVExp(Sum(m, C)), Mul(e, MVExp(C)), 100)
Fixed ==
  /\ MVExp(MVZero) = MVOne
  /\ Close(MVExp(<<DZero, DZero, DZero, DZero, DZero, DZero, DZero, PI>>), Minus(MVOne), 112)
  /\ Close(MVExp(<<DZero, DZero, DZero, DZero, DZero, DScale(PI, 1), DZero, DZero>>), MVOne, 112)
  /\ DLt(DInt(3), PI) /\ DLt(PI, DInt(4))
ASSUME Fixed
=============================================================================
