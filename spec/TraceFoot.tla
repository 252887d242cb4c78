------------------------------ MODULE TraceFoot ------------------------------
(***************************************************************************)
(* Programs of the other specifications, executed under monitors of every  *)
(* read and write.  A "session" line is such an execution: it must have    *)
(* gone through the whole program (as many calls as without the monitor),  *)
(* come to a clean end, and, run again in another memory layout, recorded  *)
(* the same.  A "done" line is a call on arbitrary bit patterns: it must   *)
(* return, with a whole value of the specified type.                       *)
(***************************************************************************)
EXTENDS TraceBase, TypeRules
Session(e) == e.end = "clean" /\ e.calls = e.planned /\ e.calls > 0
Returned(e) ==
  CASE e.f \in Strings \cup {"put"} -> e.r = <<>> /\ e.text > 0
    [] e.f = "get" -> e.r = <<e.t>>
    [] e.f \in Boolean \cup Number -> e.r = <<"double">>
    [] e.f = "pairMagDir" -> e.r = <<"double", e.t>>
    [] OTHER -> e.r = <<TypeOf(e.f, e.t, e.u)>>
Foot(e) ==
  CASE e.op = "session" -> Session(e)
    [] e.op = "done" -> Returned(e)
    [] OTHER -> FALSE
=============================================================================
