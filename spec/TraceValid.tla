------------------------------ MODULE TraceValid -----------------------------
EXTENDS EngabraFn, TraceBase
Bool(r) == IF r.c[1] = DOne THEN TRUE ELSE FALSE
IsBool(r) == r.c[1] \in {DOne, DZero}
PoisonOK(e) ==
  /\ Len(e.r) > 0
  /\ IF e.f \in {"near", "eq", "isValid"} THEN IsBool(e.r[1]) /\ ~Bool(e.r[1])
     ELSE \A i \in 1..Len(e.r) : ~AllValid(e.r[i])
Valid(e) ==
  CASE e.op = "isValid" -> (e.r = 1) <=> (\A i \in 1..Len(e.a) : ValidDouble(e.a[i]))
    [] e.op = "null" -> WF(e.a) /\ AllNaN(e.a) /\ e.r = 0
    [] e.op = "poison" -> PoisonOK(e)
    [] OTHER -> FALSE
=============================================================================
