------------------------------ MODULE EngabraFn ------------------------------
(***************************************************************************)
(* The functions of the library (norms, directions, amplitudes, inverses,  *)
(* exponentials, logarithms, roots, rotations) as relations between the    *)
(* exact values of arguments and results.  Each is stated by what defines  *)
(* the function in the algebra (x inverse(x) = 1, exp is the power series, *)
(* exp(log s) = s, ...) and not by the closed formula the library uses.    *)
(* Tolerances cover rounding of a dozen operations; see DESIGN.md.         *)
(***************************************************************************)
EXTENDS Engabra, Series

Norm1(m) == DDotAbs([k \in K |-> <<m[k], DOne>>])           \* |m| <= Norm1 <= 3 |m|
AllNaN(e) == \A i \in 1..Len(e.c) : IsNaN(e.c[i])
AllValid(e) == \A i \in 1..Len(e.c) : ValidDouble(e.c[i])
NumOK(r) == r.t = "double" /\ WF(r) /\ FinComps(r)
PlusTiny(t) == DAdd(t, Tiny)

-----------------------------------------------------------------------------
\* norms
MagSqOK(a, r, x) ==
  LET m == MV(a) t == [k \in K |-> <<m[k], m[k]>>] IN
  /\ NumOK(r)
  /\ IF x THEN Same(r.c[1], DDot(t)) ELSE TermsClose(r.c[1], t)
IsMagnitude(m, r) ==                       \* r*r = |m|^2 and r >= 0
  LET n == MagSq(m) IN
  IsFin(r) /\ Sgn(r) >= 0 /\ DNear(DSq(r), n, DScale(n, -47))
MagnitudeOK(a, r) == NumOK(r) /\ IsMagnitude(MV(a), r.c[1])
\* d is m / |m|: parallel to m in every component and of unit length
IsDirection(m, d) ==
  LET n == MagSq(m) q == DSqrt(n, 80) IN
  /\ \A k \in K : DNear(DMul(d[k], q), m[k], DAdd(DScale(DAbs(m[k]), -47), DScale(q, -1070)))
  /\ DNear(MagSq(d), DOne, DPow2(-45))
DirectionOK(a, d) ==
  /\ d.t = a.t /\ WF(d)
  /\ IF AllZero(MV(a)) THEN AllNaN(d) ELSE FinComps(d) /\ IsDirection(MV(a), MV(d))
PairMagDirOK(a, m, d) == MagnitudeOK(a, m) /\ DirectionOK(a, d)

\* squared amplitude M dirverse(M), in the scalar and trivector grades
AmpSqOK(a, r, x) ==
  LET m == MV(a) c == Dirverse(m) IN
  /\ r.t = "ComPlex"
  /\ MatchesTerms(r, LAMBDA k : Terms(m, c, k), x)
\* the principal square root of the squared amplitude
AmplitudeOK(a, r) ==
  LET m == MV(a)
      c == Dirverse(m)
      x == DDot(Terms(m, c, 1))  y == DDot(Terms(m, c, 8))
      tol == PlusTiny(DScale(DAdd(DDotAbs(Terms(m, c, 1)), DDotAbs(Terms(m, c, 8))), -46))
  IN /\ r.t = "ComPlex" /\ WF(r) /\ FinComps(r)
     /\ LET p == r.c[1] q == r.c[2] IN
        /\ Sgn(p) >= 0
        /\ DNear(DSub(DSq(p), DSq(q)), x, tol)
        /\ DNear(DScale(DMul(p, q), 1), y, tol)
        \* elements whose amplitude has no trivector product at all: the sign is fixed
        /\ (IsZero(p) /\ a.t \in {"Vector", "TriVector", "ImSpin"}) => Sgn(q) >= 0

-----------------------------------------------------------------------------
\* inverses
\* blades and complex: x inverse(x) = 1, i.e. inverse = reverse / |x|^2
InvBladeOK(a, r) ==
  LET m == MV(a) n == MagSq(m) v == Reverse(m)
      loose == IF a.t = "ComPlex" THEN DScale(Norm1(m), -50) ELSE DZero IN
  IF n = DZero THEN ~AllValid(r)
  ELSE /\ FinComps(r)
       /\ \A k \in K : DNear(DMul(MV(r)[k], n), v[k], DAdd(DAdd(DScale(DAbs(m[k]), -46), loose), DScale(n, -1060)))
\* multivectors: the adjugate over |A|^2, A the squared amplitude; the rounding of A is
\* amplified by the conditioning kappa = |M|^2/|A|
InvMVOK(a, r, x) ==
  LET m == MV(a)
      amp == AmpSq(m)
      A == DAdd(DAbs(amp[1]), DAbs(amp[8]))           \* |A| <= this <= 1.42 |A|
      A2 == DAdd(DSq(amp[1]), DSq(amp[8]))
      n == MagSq(m)
      adj == Adj(m)
      md == DualOf(m)
      cond == DScale(DAdd(A, n), -44)                  \* 2^-44 (1 + kappa) |A|
  IN IF A = DZero
     THEN x => AllNaN(r)                    \* exactly not invertible in double arithmetic too
     ELSE IF DLt(DScale(A, 40), n) THEN TRUE             \* worse conditioned than 2^40: not judged
     ELSE /\ FinComps(r)
          /\ \A k \in K : DNear(DMul(MV(r)[k], A2), adj[k],
                                DAdd(DMul(cond, DAdd(DAbs(m[k]), DAbs(md[k]))), DScale(A2, -1060)))
InverseOK(a, r, x) ==
  /\ r.t = a.t /\ WF(r)
  /\ IF a.t = "MultiVector" THEN InvMVOK(a, r, x) ELSE InvBladeOK(a, r)

-----------------------------------------------------------------------------
\* exponentials
\* The series is evaluated to 2^-180 of its size; components smaller than 2^-150 of the whole are
\* judged by the exact law that the bivector part of the result is parallel to the argument's.
Parallel(x, y) ==
  \A k \in 5..7 : \A j \in 5..7 : k < j =>
     LET u == DMul(x[k], y[j]) v == DMul(x[j], y[k]) IN
     DNear(u, v, DAdd(DScale(DAdd(DAbs(u), DAbs(v)), -46),
                      DScale(DAdd(DAdd(DAbs(y[j]), DAbs(y[k])), DAdd(DAbs(x[j]), DAbs(x[k]))), -1060)))
\* of a (scalar +) bivector: relative to e^s in the scalar, and relative to the bivector's own
\* components in the bivector part
ExpSpinOK(a, r) ==
  LET m == MV(a)
      e == MVExp(m)
      es == RExp(m[1])
      b == Norm1(Part(m, {2}))
      zero == AllZero(Part(m, {2}))
      c(k) == DNear(MV(r)[k], e[k], DAdd(DScale(DMul(es, DAbs(m[k])), -45), DScale(DMul(es, b), -150)))
  IN /\ r.t = "Spinor" /\ WF(r) /\ FinComps(r)
     /\ DNear(MV(r)[1], e[1], DAdd(DScale(DMul(es, DAdd(DAdd(DOne, b), DAbs(m[1]))), -46), Tiny))
     /\ c(5) /\ c(6) /\ c(7) /\ Parallel(MV(r), m)
     /\ (zero /\ IsZero(m[1])) => (r.c[1] = DOne /\ IsZero(r.c[2]) /\ IsZero(r.c[3]) /\ IsZero(r.c[4]))
\* of a multivector
ExpMVOK(a, r) ==
  LET m == MV(a)
      e == MVExp(m)
      \* the square of the vector+bivector part is a complex number z*z; e^s cosh(Re z) is the
      \* size of the result, e^(s + Re z) bounds it
      d == Part(m, {1, 2})
      dd == Mul(d, d)
      rez2 == DScale(DAdd(DSqrt(DAdd(DSq(dd[1]), DSq(dd[8])), 60), dd[1]), -1)
      grow == RExp(DAdd(m[1], DSqrt(DMax(rez2, DZero), 60)))
      n == MagSq(m)
      f == DScale(DMul(grow, DAdd(DOne, n)), -42)
      dn == Norm1(d)
      vb == DMul(Norm1(Part(m, {1})), Norm1(Part(m, {2})))
  IN /\ r.t = "MultiVector" /\ WF(r) /\ FinComps(r)
     /\ DNear(r.c[1], e[1], f)
     /\ DNear(r.c[8], e[8], DAdd(DMul(f, DAdd(DAbs(m[8]), vb)), DScale(f, -100)))
     \* a complex factor mixes the vector part with the bivector part dual to it
     /\ \A k \in 2..4 : /\ DNear(r.c[k], e[k], DAdd(DMul(f, DAdd(DAdd(DAbs(m[k]), DAbs(m[k + 3])), DScale(dn, -50))), DScale(f, -100)))
                        /\ DNear(r.c[k + 3], e[k + 3], DAdd(DMul(f, DAdd(DAdd(DAbs(m[k]), DAbs(m[k + 3])), DScale(dn, -50))), DScale(f, -100)))
ExpOK(a, r) == IF a.t = "MultiVector" THEN ExpMVOK(a, r) ELSE ExpSpinOK(a, r)

-----------------------------------------------------------------------------
\* logarithm and square root of spinors
Direction(m) == LET q == DSqrt(MagSq(m), 120) IN Map8(LAMBDA k : DDiv(m[k], q, 120))
BivPart(m) == Part(m, {2})
\* s is within 1e-7 of a half turn (2^-23 = 1.2e-7): negative scalar, bivector below that fraction
HalfTurn(m) == Sgn(m[1]) < 0 /\ DLeq(MagSq(BivPart(m)), DScale(MagSq(m), -46))
ExactHalfTurn(m) == Sgn(m[1]) < 0 /\ AllZero(BivPart(m))
Small(m, k) == DLt(MagSq(m), DPow2(2 * k))

\* exp(l) = s
ExpReturns(l, m, n) ==
  LET g == MVExp(l)
      u == DAdd(DOne, DAbs(l[1]))
      mag == DSqrt(n, 60)
      c(k) == DNear(g[k], m[k], DAdd(DScale(DAdd(DMul(mag, DAbs(l[k])), DMul(u, DAbs(m[k]))), -46), DScale(mag, -150)))
  IN DNear(g[1], m[1], DScale(DMul(mag, u), -44)) /\ c(5) /\ c(6) /\ c(7)
LogOK(a, p, r) ==
  LET m == MV(a) n == MagSq(m) l == MV(r)
      b2 == MagSq(BivPart(l))
      dir == Direction(MV(p))
  IN /\ r.t = "Spinor" /\ WF(r)
     /\ IF n = DZero THEN AllNaN(r)
        ELSE IF Small(m, -50) THEN TRUE                       \* below 1e-15: not specified
        ELSE /\ FinComps(r)
             \* the scalar part is ln|s|: e^(2 L0) = |s|^2
             /\ DNear(RExp(DScale(l[1], 1)), n, DScale(DMul(DAdd(DOne, DAbs(l[1])), n), -46))
             \* the angle is in [0, pi]
             /\ DLeq(b2, DMul(DSq(PI), DAdd(DOne, DPow2(-48))))
             \* the plane has the orientation of s
             /\ \/ ~ExactHalfTurn(m) /\ ExpReturns(l, m, n) /\ Parallel(l, m)
                                     /\ (~HalfTurn(m) => \A k \in 5..7 : Sgn(l[k]) = Sgn(m[k]) \/ DLeq(DAbs(l[k]), Tiny))
                \/ HalfTurn(m) /\ \A k \in 5..7 : DNear(l[k], DMul(PI, dir[k]), DAdd(DScale(DAbs(dir[k]), -44), Tiny))
\* r r = s
SqrtOK(a, p, r) ==
  LET m == MV(a) n == MagSq(m) q == MV(r)
      mag == DSqrt(n, 60)
      rm2 == MagSq(q)
      sq == Mul(q, q)
      \* 1 + |ln|s||: the exponent of |s| bounds the logarithm from above
      u == DInt(2 + (IF DMsb(n) < 0 THEN -DMsb(n) ELSE DMsb(n)))
      dir == Direction(MV(p))
      bdot == DAdd(DAdd(DMul(q[5], m[5]), DMul(q[6], m[6])), DMul(q[7], m[7]))
      pdot == DAdd(DAdd(DMul(q[5], dir[5]), DMul(q[6], dir[6])), DMul(q[7], dir[7]))
      tol == DScale(DMul(mag, u), -45)
  IN /\ r.t = "Spinor" /\ WF(r)
     /\ IF n = DZero THEN FinComps(r) /\ AllZero(q)
        ELSE IF Small(m, -46) THEN TRUE                       \* below 1.4e-14: not specified
        ELSE /\ FinComps(r)
             /\ DLeq(DNeg(DScale(DSqrt(rm2, 60), -48)), q[1])
             /\ \/ /\ ~ExactHalfTurn(m)
                   /\ DNear(sq[1], m[1], tol)
                   /\ \A k \in 5..7 : DNear(sq[k], m[k], tol)
                   /\ DLeq(DZero, bdot)
                   /\ Parallel(q, m)
                \/ /\ HalfTurn(m)
                   /\ DNear(sq[1], m[1], DAdd(tol, DScale(mag, -40)))
                   /\ \A k \in 5..7 : DNear(sq[k], m[k], DScale(mag, -22))
                   /\ DNear(DSq(pdot), mag, DScale(mag, -20)) /\ Sgn(pdot) > 0
=============================================================================
