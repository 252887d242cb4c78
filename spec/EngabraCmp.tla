----------------------------- MODULE EngabraCmp ------------------------------
(***************************************************************************)
(* Comparison.  A comparison of recorded doubles has three possible        *)
(* verdicts: "T", "F", and "?" when the exact quantity is so close to the  *)
(* threshold that rounding inside the comparison may decide either way     *)
(* (never when the quantities involved are exactly representable), or when *)
(* the operands are outside the specified range.                           *)
(***************************************************************************)
EXTENDS Engabra

And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "?" \/ b = "?" THEN "?" ELSE "T"
\* is x < y, where x was computed with an error of at most `band`
Below(x, y, band) == IF DLt(DAdd(x, band), y) THEN "T" ELSE IF DLt(DAdd(y, band), x) \/ (band = DZero /\ ~DLt(x, y)) THEN "F" ELSE "?"
TolUsable(tol) == IsFin(tol) /\ Sgn(tol) = 1

\* |t - r| < tol, by subtraction of doubles
Abs3(t, r, tol) ==
  IF ~IsFin(t) \/ ~IsFin(r) THEN "F"
  ELSE IF IsInf(tol) THEN (IF tol = PosInf THEN "T" ELSE "F")
  ELSE IF ~TolUsable(tol) THEN "F"
  ELSE LET d == DAbs(DSub(t, r)) IN Below(d, tol, IF IsDouble(d) THEN DZero ELSE DScale(d, -52))
NearAbs3(t, r, tol) == IF ValidDouble(t) /\ ValidDouble(r) THEN Abs3(t, r, tol) ELSE "F"
\* relative to the reference; absolute when the reference is tiny
Pow2Num(x) == x[1] # 0 /\ Len(x) = 3 /\ x[3] = 1
NearRel3(t, r, tol) ==
  IF ~(ValidDouble(t) /\ ValidDouble(r)) THEN "F"
  ELSE IF DLt(DAbs(r), DPow2(-970)) THEN Abs3(t, r, tol)
  ELSE IF ~IsFin(tol) \/ Sgn(tol) # 1 THEN (IF tol = PosInf THEN "?" ELSE "F")
  ELSE LET d == DAbs(DSub(t, r))
           bound == DMul(tol, DAbs(r))
           exact == Pow2Num(r) /\ IsDouble(DScale(d, -r[2]))
       IN Below(d, bound, IF exact THEN DZero ELSE DScale(DAdd(DAdd(DAbs(t), DAbs(r)), bound), -51))

\* arrays
SumSq(s) == DDot([i \in 1..Len(s) |-> <<s[i], s[i]>>])
EvenPow2(x) == Pow2Num(x) /\ x[2] % 2 = 0
InRange(s) == \A i \in 1..Len(s) : IsZero(s[i]) \/ (DMsb(s[i]) <= 505)
\* what squares of components near the bottom of the number range may lose
Underflow(tol) == DMul(DAdd(DOne, DSq(tol)), DPow2(-1070))
RECURSIVE AllAbs3(_, _, _)
AllAbs3(t, r, tol) == IF t = <<>> THEN "T" ELSE And3(Abs3(Head(t), Head(r), tol), AllAbs3(Tail(t), Tail(r), tol))
NearArr3(t, r, tol) ==
  IF ~(\A i \in 1..Len(t) : ValidDouble(t[i]) /\ ValidDouble(r[i])) THEN "F"
  ELSE IF \A i \in 1..Len(r) : IsZero(r[i]) THEN AllAbs3(t, r, tol)
  ELSE IF ~IsFin(tol) \/ Sgn(tol) # 1 THEN (IF tol = PosInf THEN "?" ELSE "F")
  ELSE IF ~InRange(t) \/ ~InRange(r) \/ DLt(SumSq(r), DPow2(-1050)) \/ DLt(DMul(DSq(tol), SumSq(r)), DPow2(-1050)) \/ DLt(tol, DPow2(-80)) THEN "?"
  ELSE LET d == [i \in 1..Len(t) |-> DSub(t[i], r[i])]
           d2 == SumSq(d)
           r2 == SumSq(r)
           bound == DMul(DSq(tol), r2)
           exact == (\A i \in 1..Len(d) : IsDouble(d[i])) /\ EvenPow2(r2) /\ (d2 = DZero \/ EvenPow2(d2))
       IN Below(d2, bound, IF exact THEN DZero ELSE DAdd(DScale(DAdd(d2, bound), -47), Underflow(tol)))
\* entities: every grade separately
GradeParts(e) == LET p == Pos(e.t)
                     of(g) == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8>>, LAMBDA k : p[k] # 0 /\ GradeOf(k) = g)
                 IN [g \in GradesOf(e.t) |-> LET ks == of(g) IN [i \in 1..Len(ks) |-> e.c[p[ks[i]]]]]
NearEnt3(a, b, tol) ==
  LET pa == GradeParts(a) pb == GradeParts(b) v(g) == NearArr3(pa[g], pb[g], tol) IN
  IF \E g \in GradesOf(a.t) : v(g) = "F" THEN "F"
  ELSE IF \A g \in GradesOf(a.t) : v(g) = "T" THEN "T" ELSE "?"
Allows(verdict, r) == verdict = "?" \/ (r = 1 /\ verdict = "T") \/ (r = 0 /\ verdict = "F")

\* exact equality as of doubles
EqNum(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ Same(x, y)
EqEnt(a, b) == a.t = b.t /\ \A i \in 1..Len(a.c) : EqNum(a.c[i], b.c[i])
=============================================================================
