------------------------------- MODULE Dyadic -------------------------------
(***************************************************************************)
(* Exact dyadic rational arithmetic, the number system every IEEE-754      *)
(* double lives in.  TLC's integers have 32 bits, so a number is a tuple   *)
(*                                                                         *)
(*      <<sgn, exp, limb_0, limb_1, ...>>      sgn in {-1, 1}              *)
(*                                                                         *)
(* of value  sgn * (SUM_i limb_i * 2^(30 i)) * 2^exp  with an odd mantissa *)
(* and no leading zero limb (so equal numbers are equal tuples).           *)
(* Zero is <<0,0>>.  The recorded doubles that are not numbers, and the    *)
(* negative zero, are the special tuples below: they never take part in    *)
(* arithmetic.                                                             *)
(*                                                                         *)
(* The definitions here say what the operations mean.  TLC evaluates them  *)
(* through java/Dyadic.java (java.math.BigInteger); DyadicTest.tla checks  *)
(* that override against these definitions on a finite domain in each run. *)
(***************************************************************************)
EXTENDS Integers, Sequences

DZero == <<0, 0>>
NegZero == <<0, 1>>
NaN == <<2, 0>>
PosInf == <<3, 0>>
NegInf == <<4, 0>>

IsNaN(x) == x[1] = 2
IsInf(x) == x[1] \in {3, 4}
IsFin(x) == x[1] \in {-1, 0, 1}
IsZero(x) == x[1] = 0
Sgn(x) == x[1]

Dyadics ==
  {DZero} \cup
  {x \in Seq(Int) :
     /\ Len(x) >= 3
     /\ x[1] \in {-1, 1}
     /\ \A i \in 3..Len(x) : x[i] \in 0..(2^30 - 1)
     /\ x[3] % 2 = 1
     /\ x[Len(x)] # 0}

RECURSIVE Mant(_, _)
Mant(x, i) == IF i > Len(x) THEN 0 ELSE x[i] + 2^30 * Mant(x, i + 1)

\* the integer x / 2^e, for e no greater than the exponent of x
Scaled(x, e) == IF x[1] = 0 THEN 0 ELSE x[1] * Mant(x, 3) * 2^(x[2] - e)

MinI(a, b) == IF a < b THEN a ELSE b
Low(x) == IF x[1] = 0 THEN 0 ELSE x[2]

DAdd(x, y) == CHOOSE z \in Dyadics :
  LET e == MinI(MinI(Low(x), Low(y)), Low(z)) IN Scaled(z, e) = Scaled(x, e) + Scaled(y, e)
DSub(x, y) == CHOOSE z \in Dyadics :
  LET e == MinI(MinI(Low(x), Low(y)), Low(z)) IN Scaled(z, e) = Scaled(x, e) - Scaled(y, e)
DMul(x, y) == CHOOSE z \in Dyadics :
  IF x[1] = 0 \/ y[1] = 0 THEN z = DZero
  ELSE LET e == MinI(x[2] + y[2], Low(z)) IN
       Scaled(z, e) = Scaled(x, x[2]) * Scaled(y, y[2]) * 2^(x[2] + y[2] - e)
DNeg(x) == IF x[1] \in {-1, 1} THEN [x EXCEPT ![1] = -x[1]] ELSE DZero
DAbs(x) == IF x[1] = -1 THEN DNeg(x) ELSE IF x[1] = 0 THEN DZero ELSE x
DCmp(x, y) == LET e == MinI(Low(x), Low(y)) IN
  IF Scaled(x, e) < Scaled(y, e) THEN -1 ELSE IF Scaled(x, e) = Scaled(y, e) THEN 0 ELSE 1
DLeq(x, y) == DCmp(x, y) <= 0
DLt(x, y) == DCmp(x, y) < 0
DInt(n) == CHOOSE z \in Dyadics : Low(z) >= 0 /\ Scaled(z, 0) = n
DScale(x, k) == IF x[1] = 0 THEN DZero ELSE [x EXCEPT ![2] = x[2] + k]   \* x * 2^k
\* number of bits left of the binary point: 2^(DMsb-1) <= |x| < 2^DMsb
DMsb(x) == CHOOSE n \in Int : DLeq(DScale(DInt(1), n - 1), DAbs(x)) /\ DLt(DAbs(x), DScale(DInt(1), n))
\* the p leading bits of x (rounded toward zero)
DTrunc(x, p) == IF x[1] = 0 THEN DZero ELSE
  CHOOSE z \in Dyadics : /\ z[1] = x[1]
                         /\ z[2] >= DMsb(x) - p \/ z = x
                         /\ DLeq(DAbs(z), DAbs(x))
                         /\ DLt(DSub(DAbs(x), DAbs(z)), DScale(DInt(1), DMsb(x) - p))
\* a quotient / square root correct to a relative 2^-p, rounded toward zero
DDiv(x, y, p) == CHOOSE z \in Dyadics :
  LET d == DSub(DAbs(x), DMul(DAbs(z), DAbs(y))) IN
  /\ z[1] = x[1] * y[1]
  /\ DLeq(DZero, d) /\ DLeq(d, DScale(DAbs(x), -p))
DSqrt(x, p) == CHOOSE z \in Dyadics :
  LET d == DSub(x, DMul(z, z)) IN
  /\ z[1] >= 0 /\ DLeq(DZero, d) /\ DLeq(d, DScale(x, 1 - p))
DFloor(x) == CHOOSE n \in Int : DLeq(DInt(n), x) /\ DLt(x, DInt(n + 1))

RECURSIVE DDot(_), DDotAbs(_)
DDot(s) == IF s = <<>> THEN DZero ELSE DAdd(DMul(Head(s)[1], Head(s)[2]), DDot(Tail(s)))
DDotAbs(s) == IF s = <<>> THEN DZero ELSE DAdd(DAbs(DMul(Head(s)[1], Head(s)[2])), DDotAbs(Tail(s)))

\* a bilinear product given by its tables: the p leading bits of every component
DBilin(a, b, sig, par, p) ==
  [k \in 1..Len(sig) |->
     DTrunc(DDot([i \in 1..Len(a) |-> <<IF sig[k][i] = 1 THEN a[i] ELSE DNeg(a[i]), b[par[k][i]]>>]), p)]

DOne == <<1, 0, 1>>
DTwo == <<1, 1, 1>>
DPow2(k) == <<1, k, 1>>
DMax(x, y) == IF DLeq(x, y) THEN y ELSE x
DMin(x, y) == IF DLeq(x, y) THEN x ELSE y
DSq(x) == DMul(x, x)

\* |x - y| <= t
DNear(x, y, t) == DLeq(DAbs(DSub(x, y)), t)

-----------------------------------------------------------------------------
\* IEEE-754 binary64 classification of a recorded value (as std::isnormal)
Subnormal(x) == x[1] \in {-1, 1} /\ DMsb(x) <= -1022
Normal(x) == x[1] \in {-1, 1} /\ DMsb(x) > -1022
ValidDouble(x) == x[1] = 0 \/ Normal(x)
\* the numbers representable as finite doubles
IsDouble(x) == x[1] = 0 \/ (x[1] \in {-1,1} /\ DMsb(x) <= 1024 /\ x[2] >= -1074 /\ DMsb(x) - x[2] <= 53)
Same(x, y) == x = y \/ (x[1] = 0 /\ y[1] = 0)
=============================================================================
