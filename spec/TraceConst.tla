----------------------------- MODULE TraceConst -----------------------------
(***************************************************************************)
(* The named constants and the zero, one and null of every type, read at   *)
(* several points of a program's life: while another translation unit's    *)
(* static objects are initialised, at the start of main, after other       *)
(* calls.  The value never depends on the moment.                          *)
(***************************************************************************)
EXTENDS TraceBase, GTypes
PlusZero == "0000000000000000"
OneCell == "3ff0000000000000"
UnitRow(k) == [i \in K |-> IF i = k THEN OneCell ELSE PlusZero]
Narrow(t, row) == [t |-> t, c |-> [n \in 1..Dim(t) |-> row[Layout(t)[n]]]]
BladeOf(g) == CASE g = 0 -> "Scalar" [] g = 1 -> "Vector" [] g = 2 -> "BiVector" [] OTHER -> "TriVector"
NamedBasis == [e0 |-> 1, e1 |-> 2, e2 |-> 3, e3 |-> 4, e23 |-> 5, e31 |-> 6, e12 |-> 7, e123 |-> 8]
\* the doubles nearest to the multiples of pi
Turns == [pi |-> "400921fb54442d18", piHalf |-> "3ff921fb54442d18", piQtr |-> "3fe921fb54442d18",
          turnFull |-> "401921fb54442d18", turnHalf |-> "400921fb54442d18", turnQtr |-> "3ff921fb54442d18"]
Const(e) ==
  /\ e.op = "const"
  /\ e.v.t \in Types /\ Len(e.v.c) = Dim(e.v.t)
  /\ CASE e.name \in DOMAIN NamedBasis ->
            LET k == NamedBasis[e.name] IN e.v = Narrow(BladeOf(GradeOf(k)), UnitRow(k))
       [] e.name = "zero" -> e.v = Narrow(e.v.t, [i \in K |-> PlusZero])
       [] e.name = "one" -> e.v = Narrow(e.v.t, UnitRow(1))
       [] e.name \in {"null", "nan"} -> e.nans = [n \in 1..Dim(e.v.t) |-> 1]
       [] e.name \in DOMAIN Turns -> e.v.c = <<Turns[e.name]>>
       [] OTHER -> FALSE
=============================================================================
