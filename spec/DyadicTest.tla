----------------------------- MODULE DyadicTest -----------------------------
(* Self test of the Java override of Dyadic against the definitions, on a   *)
(* finite domain small enough for TLC's own integers, plus algebraic laws   *)
(* on numbers with many limbs.  Any failure is an error of the machinery.   *)
EXTENDS Dyadic, TLC

N == -9..9
E == {-3, 0, 2}
Num(n, e) == DScale(DInt(n), e)
Dom == {Num(n, e) : n \in N, e \in E}
Sc(x) == Scaled(x, -40)          \* unused exponents are far above -40
S8(x) == Scaled(x, -8)
Sgn3(i) == IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1

Canonical == \A x \in Dom : x = DZero \/ (Len(x) = 3 /\ x[3] % 2 = 1 /\ x[1] \in {-1,1})
IntOk == \A n \in N : Scaled(DInt(n), 0) = n
AddOk == \A x, y \in Dom : S8(DAdd(x, y)) = S8(x) + S8(y)
SubOk == \A x, y \in Dom : S8(DSub(x, y)) = S8(x) - S8(y)
MulOk == \A x, y \in Dom : Scaled(DMul(x, y), -6) = Scaled(x, -3) * Scaled(y, -3)
CmpOk == \A x, y \in Dom : /\ DCmp(x, y) = Sgn3(S8(x) - S8(y))
                           /\ DLeq(x, y) = (S8(x) <= S8(y)) /\ DLt(x, y) = (S8(x) < S8(y))
NegOk == \A x \in Dom : S8(DNeg(x)) = -S8(x) /\ S8(DAbs(x)) = (IF S8(x) < 0 THEN -S8(x) ELSE S8(x))
MsbOk == \A x \in Dom \ {DZero} : DLeq(DPow2(DMsb(x) - 1), DAbs(x)) /\ DLt(DAbs(x), DPow2(DMsb(x)))
FloorOk == \A x \in Dom : DLeq(DInt(DFloor(x)), x) /\ DLt(x, DInt(DFloor(x) + 1))
DotOk == \A x, y, z \in Dom :
   /\ DDot(<<<<x, y>>, <<y, z>>>>) = DAdd(DMul(x, y), DMul(y, z))
   /\ DDotAbs(<<<<x, y>>, <<y, z>>>>) = DAdd(DAbs(DMul(x, y)), DAbs(DMul(y, z)))

\* numbers with up to six limbs
Big == {DAdd(DMul(DScale(DInt(1073741789 - 7 * n), 31 * k), DScale(DInt(987654321 + n), 17)), DInt(n)) :
           n \in {-3, 0, 5, 11}, k \in {-4, 0, 3, 7}}
BigLaws == \A x, y \in Big :
   /\ DAdd(x, y) = DAdd(y, x) /\ DMul(x, y) = DMul(y, x)
   /\ DSub(DAdd(x, y), y) = x
   /\ DMul(DAdd(x, y), DSub(x, y)) = DSub(DSq(x), DSq(y))
   /\ \A p \in {20, 60, 150} :
        /\ LET q == DDiv(x, y, p) d == DSub(DAbs(x), DMul(DAbs(q), DAbs(y))) IN
             DLeq(DZero, d) /\ DLeq(d, DScale(DAbs(x), -p))
        /\ LET t == DTrunc(x, p) IN
             /\ DLeq(DAbs(t), DAbs(x)) /\ DLt(DSub(DAbs(x), DAbs(t)), DPow2(DMsb(x) - p))
             /\ DMsb(t) - t[2] <= p
        /\ LET a == DAbs(x) r == DSqrt(a, p) d == DSub(a, DSq(r)) IN
             DLeq(DZero, d) /\ DLeq(d, DScale(a, 1 - p))
   /\ DSqrt(DSq(x), 100) = DAbs(x) \/ DMsb(x) - x[2] > 50
   /\ DDiv(DMul(x, y), y, 400) = x

\* two tables (the override keeps the last one used), exact and truncated
TestSig == <<<<1, -1>>, <<-1, 1>>, <<1, 1>>>>
TestPar == <<<<2, 1>>, <<1, 2>>, <<2, 2>>>>
BilinDef(a, b, sig, par, p) ==
  [k \in 1..Len(sig) |-> DTrunc(DDot([i \in 1..Len(a) |-> <<IF sig[k][i] = 1 THEN a[i] ELSE DNeg(a[i]), b[par[k][i]]>>]), p)]
BilinOk == \A x, y, z \in Big \cup {DZero, DInt(3)} : \A p \in {30, 2000} :
   /\ DBilin(<<x, y>>, <<z, x>>, TestSig, TestPar, p) = BilinDef(<<x, y>>, <<z, x>>, TestSig, TestPar, p)
   /\ DBilin(<<y, x>>, <<x, z>>, SubSeq(TestSig, 2, 3), SubSeq(TestPar, 2, 3), p) = BilinDef(<<y, x>>, <<x, z>>, SubSeq(TestSig, 2, 3), SubSeq(TestPar, 2, 3), p)

ASSUME BilinOk
ASSUME Canonical /\ IntOk /\ AddOk /\ SubOk /\ MulOk /\ CmpOk /\ NegOk /\ MsbOk /\ FloorOk
ASSUME DotOk
ASSUME BigLaws

VARIABLE done
Init == done = FALSE
Next == done = FALSE /\ done' = TRUE
Spec == Init /\ [][Next]_done
=============================================================================
