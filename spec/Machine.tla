------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The library as a machine: a few registers hold values, and every call   *)
(* reads its operand registers and puts its result in a destination        *)
(* register (which may be an operand, and operands may coincide).  Nothing *)
(* else changes.  An observing call (a function whose value is irrational, *)
(* a comparison, a text encoding) changes no register at all.              *)
(*                                                                         *)
(* Values are exact: components are small integers, for which the real     *)
(* library must compute exactly.  TLC simulates this machine; its          *)
(* behaviours are replayed on the real library by drv_mach.                *)
(***************************************************************************)
EXTENDS Clifford, Calls, TLC, FiniteSets
CONSTANTS NReg, Bound
VARIABLES reg, last

Regs == 1..NReg
Val(t, c) == [t |-> t, c |-> c]
MVof(v) == Embed(v.t, v.c)
Small(v) == \A i \in 1..Len(v.c) : v.c[i] <= Bound /\ v.c[i] >= -Bound
Res2(op, a, b) ==
  LET x == MVof(a) y == MVof(b)
      t == IF op = "mul" THEN MulType(a.t, b.t) ELSE AddType(a.t, b.t)
      m == CASE op = "mul" -> Mul(x, y) [] op = "add" -> Sum(x, y) [] OTHER -> Dif(x, y)
  IN Val(t, Project(t, m))
Res1(op, a) ==
  LET x == MVof(a)
      t == IF op = "dual" THEN DualType(a.t) ELSE a.t
      m == CASE op = "neg" -> Minus(x) [] op = "reverse" -> Reverse(x) [] op = "oddverse" -> Oddverse(x)
             [] op = "dirverse" -> Dirverse(x) [] op = "dual" -> DualOf(x) [] OTHER -> Mul(x, x)
  IN Val(t, Project(t, m))

None == [op |-> "none", d |-> 0, i |-> 0, j |-> 0]
RandomVal(r) == LET t == RandomElement(IF r = 0 THEN Entities ELSE Types) IN Val(t, [n \in 1..Dim(t) |-> RandomElement(-3..3)])
Near(v) == LET n == RandomElement(1..Len(v.c)) IN
           RandomElement({Val(v.t, [v.c EXCEPT ![n] = @ + 1]), Val(v.t, [v.c EXCEPT ![n] = -@]),
                         Val(v.t, [m \in 1..Len(v.c) |-> v.c[1 + (m % Len(v.c))]])})
Init == /\ reg \in {[r \in Regs |-> RandomVal(r + k)] : k \in 1..300}
        /\ last = None
\* keep the registers diverse: at most two hold full multivectors by computation
Full == Cardinality({r \in Regs : reg[r].t = "MultiVector"}) >= 2
Compute2 == \E op \in Binary, d, i, j \in Regs :
  /\ Has2(op, reg[i].t, reg[j].t) /\ Small(reg[i]) /\ Small(reg[j])
  /\ Full => reg[d].t = "MultiVector" \/ Res2(op, reg[i], reg[j]).t # "MultiVector"
  /\ reg' = [reg EXCEPT ![d] = Res2(op, reg[i], reg[j])]
  /\ last' = [op |-> op, d |-> d, i |-> i, j |-> j]
Compute1 == \E op \in Unary, d, i \in Regs :
  /\ Has1(op, reg[i].t) /\ Small(reg[i])
  /\ reg' = [reg EXCEPT ![d] = Res1(op, reg[i])]
  /\ last' = [op |-> op, d |-> d, i |-> i, j |-> i]
Observe2 == \E op \in Observers2, i, j \in Regs :
  /\ HasO2(op, reg[i].t, reg[j].t)
  /\ last' = [op |-> op, d |-> 0, i |-> i, j |-> j] /\ UNCHANGED reg
Observe1 == \E op \in Observers1, i \in Regs :
  /\ HasO1(op, reg[i].t)
  /\ last' = [op |-> op, d |-> 0, i |-> i, j |-> i] /\ UNCHANGED reg
Load(k) == \E d, i \in Regs :
  /\ reg' = [reg EXCEPT ![d] = IF k = 1 THEN Near(reg[i]) ELSE RandomVal(d)]
  /\ last' = [op |-> "load", d |-> d, i |-> 0, j |-> 0]
\* a simulation draws a disjunct first, so that all kinds of step occur
Next == \/ Compute2 \/ Compute1 \/ Observe2 \/ Observe1 \/ (\E k \in {1} : Load(k)) \/ (\E k \in {2} : Load(k))
Spec == Init /\ [][Next]_<<reg, last>>

WellTyped == \A r \in Regs : reg[r].t \in Types /\ Len(reg[r].c) = Dim(reg[r].t)
\* nothing but the destination changes, and the result is a function of the operands
Frame == [][\A r \in Regs : r = last'.d \/ reg'[r] = reg[r]]_<<reg, last>>
=============================================================================
