------------------------------ MODULE TraceCmp -------------------------------
EXTENDS EngabraCmp, TraceBase
B(x) == IF x THEN 1 ELSE 0
Cmp(e) ==
  CASE e.op = "near" -> Allows(IF e.a.t = "double" THEN NearRel3(e.a.c[1], e.b.c[1], e.tol) ELSE NearEnt3(e.a, e.b, e.tol), e.r)
    [] e.op = "rel" -> Allows(NearRel3(e.a.c[1], e.b.c[1], e.tol), e.r)
    [] e.op = "abs" -> Allows(NearAbs3(e.a.c[1], e.b.c[1], e.tol), e.r)
    [] e.op = "smallDiff" -> Allows(Abs3(e.a.c[1], e.b.c[1], e.tol), e.r)
    [] e.op = "small" -> Allows(Abs3(e.a.c[1], DZero, e.tol), e.r)
    [] e.op = "bothValid" -> e.r = B(ValidDouble(e.a.c[1]) /\ ValidDouble(e.b.c[1]))
    [] e.op = "array" -> Allows(NearArr3(e.a.c, e.b.c, e.tol), e.r)
    [] e.op = "bool" -> e.r = B(e.a.c[1] = e.b.c[1])
    [] e.op = "eq" -> e.r = B(EqEnt(e.a, e.b))
    [] OTHER -> FALSE
=============================================================================
