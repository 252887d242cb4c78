----------------------------- MODULE TraceOpsDef -----------------------------
(* The arithmetic calls allowed by Engabra.tla, and the recorded findings *)
EXTENDS Engabra
CONSTANT Known       \* recorded findings: "op typeA typeB deviation"
IsKnown(e, dev) == (e.op \o " " \o e.a.t \o " " \o e.b.t \o " " \o dev) \in Known
Ops(e) ==
  CASE e.op = "mul" -> MulOK(e.a, e.b, e.r, e.x = 1)
    [] e.op = "add" -> AddOK(e.a, e.b, e.r, e.x = 1)
    [] e.op = "sub" -> \/ SubOK(e.a, e.b, e.r, e.x = 1)
                         \/ (IsKnown(e, "reversed") /\ SubOK(e.b, e.a, e.r, e.x = 1))
    [] e.op = "sq" -> SqOK(e.a, e.r, e.x = 1)
    [] e.op = "cube" -> CubeOK(e.a, e.r, e.x = 1)
    [] e.op = "neg" -> NegOK(e.a, e.r)
    [] e.op = "reverse" -> ReverseOK(e.a, e.r)
    [] e.op = "oddverse" -> OddverseOK(e.a, e.r)
    [] e.op = "dirverse" -> DirverseOK(e.a, e.r)
    [] e.op = "dual" -> DualOK(e.a, e.r)
    [] OTHER -> FALSE
=============================================================================
