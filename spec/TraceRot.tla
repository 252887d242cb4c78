------------------------------ MODULE TraceRot -------------------------------
(***************************************************************************)
(* Conformance of rotations.  A path of quarter turns must take the axes   *)
(* where the state machine Rotations takes them; a rotation by an          *)
(* arbitrary bivector must be the sandwich with the exponential series;    *)
(* a chain of rotations must be the sandwich with the product.             *)
(***************************************************************************)
EXTENDS EngabraFn, TraceBase

Tol(n, size) == DScale(DMul(DInt(n), size), -46)
Near(r, m, tol) == MatchesWithin(r, m, tol)
Sandwich(s, v) == Mul(Mul(s, v), Reverse(s))

\* Rotations!Turn on an axis image, over the dyadic numbers
TurnFactor(t) == Sum(MVOne, IF t[2] = 1 THEN Minus(Basis(t[1])) ELSE Basis(t[1]))
TurnOf(t, v) == Map8(LAMBDA k : DScale(Sandwich(TurnFactor(t), v)[k], -1))
RECURSIVE Along(_, _)
Along(path, v) == IF path = <<>> THEN v ELSE Along(Tail(path), TurnOf(Head(path), v))
TurnsOK(e) ==
  \A i \in 1..3 :
    LET want == Along(e.path, Basis(i + 1)) tol == Tol(1 + Len(e.path), DOne) IN
    /\ Near(e.x[i], want, tol) /\ Near(e.m[i], want, tol) /\ Near(e.s[i], want, tol)
    /\ e.x[i].t = "ImSpin"

Half(m) == ScaleP(m, -1)
RotOK(e) ==
  LET v == MV(e.v)
      b == MV(e.B)
      E == MVExp(Half(b))
      want == Sandwich(E, v)
      nv == Norm1(v) nb == Norm1(b)
      tol == DScale(DMul(DAdd(DOne, nb), nv), -46)
      utol == DScale(DAdd(DOne, nb), -46)
      principal == DLt(MagSq(b), DInt(39))              \* |B|/2 < pi
  IN /\ Near(e.R, E, utol)
     /\ Near(e.x, want, tol) /\ e.x.t = "ImSpin"
     /\ Near(e.y, want, tol) /\ Near(e.m, want, tol) /\ Near(e.d, want, tol)
     /\ Near(e.i, Sandwich(Reverse(E), v), tol)
     /\ Near(e.back, v, tol)
     /\ Near(e.one, MVOne, utol)
     \* every grade of an element turns by itself
     /\ LET X == MV(e.e) etol == DScale(DMul(DAdd(DOne, nb), Norm1(X)), -46) IN
        /\ Near(e.ex, Sandwich(E, X), etol) /\ Near(e.ey, Sandwich(Reverse(E), X), etol)
     /\ principal => /\ Near(e.lg, Half(b), utol)
                     /\ Near(e.rt, MVExp(ScaleP(b, -2)), utol)
RECURSIVE ChainExp(_)
\* the spinor of a chain: the last rotation is the leftmost factor
ChainExp(bs) == IF bs = <<>> THEN MVOne ELSE MulT(ChainExp(Tail(bs)), MVExp(Half(MV(Head(bs)))))
RECURSIVE NormAll(_)
NormAll(bs) == IF bs = <<>> THEN DOne ELSE DAdd(DAdd(DOne, Norm1(MV(Head(bs)))), NormAll(Tail(bs)))
ChainOK(e) ==
  LET E == ChainExp(e.B)
      want == Sandwich(E, MV(e.v))
      tol == DScale(DMul(NormAll(e.B), Norm1(MV(e.v))), -46)
  IN /\ Near(e.s, want, tol) /\ Near(e.x, want, tol)
     /\ Near(e.R, E, DScale(NormAll(e.B), -46))
Rot(e) == CASE e.op = "turns" -> TurnsOK(e)
            [] e.op = "rot" -> RotOK(e)
            [] e.op = "chain" -> ChainOK(e)
            [] OTHER -> FALSE
=============================================================================
