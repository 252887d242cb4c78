----------------------------- MODULE TracePipe ------------------------------
(***************************************************************************)
(* Recorded programs of Pipe.tla, judged call by call: the operands are    *)
(* what the registers hold, and each result of a judged call is one the    *)
(* specification of that call allows for those operands.                   *)
(***************************************************************************)
EXTENDS TraceOpsDef, EngabraFn, EngabraCmp, Json, IOUtils
CONSTANTS Judged, JudgedTypes      \* the calls judged, and the types of their first operand
VARIABLES l, reg
Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
Starts == {n \in 1..NLines : Trace[n].op = "start"} \cup (IF Trace[1].op = "start" THEN {} ELSE {0})

Default == [t |-> "BiVector", c |-> <<DOne, DZero, DZero>>]
Epsilon == DPow2(-52)
Truth(r, x) == r = [t |-> "double", c |-> <<IF x THEN DOne ELSE DZero>>]
TextTrip(x, y) == IF IsZero(x) THEN IsZero(y) ELSE IsFin(y) /\ DNear(x, y, DScale(DAbs(x), -49))
GradePart(a, r) == r.t \in BladeTypes /\ LET p == Pos(a.t) q == Pos(r.t) IN \A k \in K : q[k] # 0 => p[k] # 0 /\ r.c[q[k]] = a.c[p[k]]
Calc(e) ==
  LET r == e.r[1] x == e.x = 1 IN
  CASE e.f \in {"mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube"} ->
         Ops([op |-> e.f, a |-> e.a, b |-> e.b, r |-> r, x |-> e.x])
    [] e.f = "magSq" -> MagSqOK(e.a, r, x)
    [] e.f = "magnitude" -> MagnitudeOK(e.a, r)
    [] e.f = "pairMagDir" -> PairMagDirOK(e.a, r, e.r[2])
    [] e.f = "direction" -> DirectionOK(e.a, r)
    [] e.f = "ampSq" -> AmpSqOK(e.a, r, x)
    [] e.f = "amplitude" -> AmplitudeOK(e.a, r)
    [] e.f = "inverse" -> InverseOK(e.a, r, x)
    [] e.f = "exp" -> ExpOK(e.a, r)
    [] e.f = "log" -> LogOK(e.a, Default, r)
    [] e.f = "sqrt" -> SqrtOK(e.a, Default, r)
    [] e.f = "logPlane" -> LogOK(e.a, e.b, r)
    [] e.f = "sqrtPlane" -> SqrtOK(e.a, e.b, r)
    [] e.f = "isValid" -> Truth(r, AllValid(e.a))
    [] e.f = "eq" -> Truth(r, EqEnt(e.a, e.b))
    [] e.f = "near" -> Allows(IF e.a.t = "double" THEN NearRel3(e.a.c[1], e.b.c[1], Epsilon) ELSE NearEnt3(e.a, e.b, Epsilon), IF r.c[1] = DOne THEN 1 ELSE 0)
    [] e.f = "text" -> r.t = e.a.t /\ WF(r) /\ \A n \in 1..Len(e.a.c) : TextTrip(e.a.c[n], r.c[n])
    [] e.f = "part" -> GradePart(e.a, r)
    [] e.f = "embed" -> r.t = "MultiVector" /\ LET p == Pos(e.a.t) IN \A k \in K : r.c[k] = (IF p[k] = 0 THEN DZero ELSE e.a.c[p[k]])
Step(e) ==
  \/ e.op = "load" /\ reg' = [reg EXCEPT ![e.d] = e.v]
  \/ /\ e.op = "call"
     /\ e.a = reg[e.i] /\ e.b = reg[e.j]
     /\ ((e.f \in Judged /\ e.a.t \in JudgedTypes) => Calc(e)) = TRUE
     /\ reg' = IF e.st = 0 THEN reg ELSE [reg EXCEPT ![e.d] = e.r[Len(e.r)]]
Init == l \in Starts /\ reg = IF l = 0 THEN <<>> ELSE Trace[l].regs
More == l < NLines /\ Trace[l + 1].op # "start"
Next == \/ More /\ Step(Trace[l + 1]) /\ l' = l + 1
        \/ ~More /\ UNCHANGED <<l, reg>>
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================
