------------------------------ MODULE TraceFmt -------------------------------
EXTENDS Format, TraceBase
\* whatever the state of the target stream, writing leaves its format as it was
StateKept(e) == e.pre = e.post
Fmt(e) ==
  CASE e.op = "fixed" -> FixedText(e.a, e.w, e.b, e.tail, e.before, e.after)
    [] e.op = "enote" -> SciText(e.a, e.w, e.b, e.tail, e.digits)
    [] e.op = "put" -> FixedText(e.a, e.w, e.b, e.tail, 3, 6) /\ StateKept(e) /\ e.good = 1
    [] e.op = "back" -> e.a.t = e.r.t /\ e.ok = 1 /\ \A n \in 1..Dim(e.a.t) : BackOk(e.a.c[n], e.r.c[n])
    [] OTHER -> FALSE
=============================================================================
