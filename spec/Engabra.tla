------------------------------ MODULE Engabra -------------------------------
(***************************************************************************)
(* What each call of the library means, as a relation between the values   *)
(* of its arguments and the value it may return.  Values are recorded      *)
(* exactly: an entity is [t |-> type name, c |-> component numbers].       *)
(*                                                                         *)
(* Tolerances only cover rounding: a component that is a sum of terms must *)
(* lie within 2^-48 of the sum of the absolute terms (a dozen roundings in *)
(* any order, with or without fused operations), and sums of exact small   *)
(* integers must be exact.                                                 *)
(***************************************************************************)
EXTENDS Dyadic, Clifford, TLC

Tiny == DPow2(-1060)
EPS == 48                                  \* relative rounding allowance 2^-EPS

FinComps(e) == \A i \in 1..Len(e.c) : IsFin(e.c[i])
\* a recorded value is well formed: a known type with the right number of components
WF(e) == e.t \in Types /\ Len(e.c) = Dim(e.t)
MV(e) == Embed(e.t, e.c)
AllZero(m) == \A k \in K : IsZero(m[k])

\* component k of the recorded result is the sum of the given terms
TermsClose(r, terms) ==
  LET d == DAbs(DSub(r, DDot(terms))) IN
  d = DZero \/ DLeq(d, DAdd(DScale(DDotAbs(terms), -EPS), Tiny))

\* r carries every component of the exact multivector with terms T(k), exactly if x
MatchesTerms(r, T(_), x) ==
  /\ WF(r) /\ FinComps(r)
  /\ LET p == Pos(r.t) IN
     \A k \in K :
       IF p[k] = 0 THEN DDot(T(k)) = DZero
       ELSE IF x THEN Same(r.c[p[k]], DDot(T(k))) ELSE TermsClose(r.c[p[k]], T(k))

\* exact equality with multivector m, component by component
MatchesExactly(r, m) ==
  /\ WF(r) /\ FinComps(r)
  /\ LET p == Pos(r.t) IN
     \A k \in K : IF p[k] = 0 THEN IsZero(m[k]) ELSE Same(r.c[p[k]], m[k])

\* |r - m| <= tol in every component
MatchesWithin(r, m, tol) ==
  /\ WF(r) /\ FinComps(r)
  /\ LET p == Pos(r.t) IN
     \A k \in K : IF p[k] = 0 THEN DLeq(DAbs(m[k]), tol) ELSE DNear(r.c[p[k]], m[k], tol)

-----------------------------------------------------------------------------
\* products
MulOK(a, b, r, x) == LET ma == MV(a) mb == MV(b) IN MatchesTerms(r, LAMBDA k : Terms(ma, mb, k), x)

\* sums and differences: one rounding (2^-52 of the sum of the magnitudes covers it)
SumClose(r, x, y) == LET d == DAbs(DSub(r, DAdd(x, y))) IN
  d = DZero \/ DLeq(d, DScale(DAbs(DAdd(x, y)), -51))
SumMatches(r, ma, mb, x) ==
  /\ WF(r) /\ FinComps(r)
  /\ LET p == Pos(r.t) IN
     \A k \in K : IF p[k] = 0 THEN DAdd(ma[k], mb[k]) = DZero
                  ELSE IF x THEN Same(r.c[p[k]], DAdd(ma[k], mb[k])) ELSE SumClose(r.c[p[k]], ma[k], mb[k])
AddOK(a, b, r, x) == SumMatches(r, MV(a), MV(b), x)
SubOK(a, b, r, x) == SumMatches(r, MV(a), Minus(MV(b)), x)

\* powers of closed types
SqOK(a, r, x) == MulOK(a, a, r, x)
CubeOK(a, r, x) ==
  LET m == MV(a)
      s == Mul(m, m)
      e == Mul(s, m)
      am == Map8(LAMBDA k : DAbs(m[k]))
      \* |(|a|*|a|)*|a|| bounds the absolute terms of either association
      as == Map8(LAMBDA k : DDotAbs(Terms(am, am, k)))
      ae == Map8(LAMBDA k : DDotAbs(Terms(as, am, k)))
      p == Pos(r.t)
  IN /\ WF(r) /\ FinComps(r)
     /\ \A k \in K :
          IF p[k] = 0 THEN e[k] = DZero
          ELSE IF x THEN Same(r.c[p[k]], e[k])
          ELSE DNear(r.c[p[k]], e[k], DAdd(DScale(ae[k], 1 - EPS), Tiny))

\* sign rules: exact
NegOK(a, r) == MatchesExactly(r, Minus(MV(a)))
ReverseOK(a, r) == MatchesExactly(r, Reverse(MV(a)))
OddverseOK(a, r) == MatchesExactly(r, Oddverse(MV(a)))
DirverseOK(a, r) == MatchesExactly(r, Dirverse(MV(a)))
DualOK(a, r) == MatchesExactly(r, DualOf(MV(a)))
=============================================================================
