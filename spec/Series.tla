------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* The exponential of a multivector as what it is: the sum of the power    *)
(* series M^n / n! with the algebra's own product, evaluated to some 180   *)
(* bits by halving the argument and squaring the result back up.  No       *)
(* closed form (cosine, sine, norm, complex root) is used.                 *)
(***************************************************************************)
EXTENDS Dyadic, Clifford

LOCAL W == 220                               \* working bits of each component
MulT(a, b) == DBilin(a, b, Sig, Par, W)     \* the product, each component cut to W bits
ScaleP(m, e) == Map8(LAMBDA k : DScale(m[k], e))
MaxMsb(m) == LET S == {k \in K : m[k][1] # 0} IN
             IF S = {} THEN -9999
             ELSE LET t == CHOOSE k \in S : \A j \in S : DMsb(m[j]) <= DMsb(m[k]) IN DMsb(m[t])

\* SUM_(n <= Last) m^n / n!  =  (1/Last!) (c_0 + m (c_1 + m (c_2 + ...)))   with c_n = Last! / n!
LOCAL Last == 26
RECURSIVE FallingFact(_)
FallingFact(n) == IF n = Last THEN DOne ELSE DMul(DInt(n + 1), FallingFact(n + 1))
Coef == [n \in 0..Last |-> FallingFact(n)]
RECURSIVE Horner(_, _)
Horner(m, n) ==
  IF n = Last THEN MVOne
  ELSE LET t == MulT(m, Horner(m, n + 1)) IN
       <<DAdd(t[1], Coef[n]), t[2], t[3], t[4], t[5], t[6], t[7], t[8]>>
PowerSeries(m) == LET h == Horner(m, 0) IN Map8(LAMBDA k : DDiv(h[k], Coef[0], W))
RECURSIVE SquareUp(_, _)
SquareUp(m, n) == IF n = 0 THEN m ELSE SquareUp(MulT(m, m), n - 1)
MVExp(m) ==
  LET top == MaxMsb(m)
      h == IF top > -6 THEN top + 6 ELSE 0     \* |m| / 2^h has components below 2^-6
  IN SquareUp(PowerSeries(ScaleP(m, -h)), h)

\* e^x for a number
RExp(x) == MVExp(<<x, DZero, DZero, DZero, DZero, DZero, DZero, DZero>>)[1]

\* pi to 118 fraction bits (SeriesTest checks that it is the half period of the exponential)
PI == DScale(DAdd(DAdd(DScale(DInt(843314856), 90), DScale(DInt(571903011), 60)),
                  DAdd(DScale(DInt(320018826), 30), DInt(192994332))), -118)
=============================================================================
