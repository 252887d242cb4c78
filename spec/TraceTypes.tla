----------------------------- MODULE TraceTypes -----------------------------
(***************************************************************************)
(* What the compiler says about every expression over the library's types, *)
(* judged by TypeRules: for each form of the operands (const or not,       *)
(* lvalue or rvalue) whether the expression is well formed and its type.   *)
(* A "build" line records whether a program of several translation units   *)
(* that all include the library compiled and linked; an "include" line     *)
(* whether a program including the named headers, in that order, compiled; *)
(* a "constant" line whether a constant expression can use the constant.   *)
(***************************************************************************)
EXTENDS TraceBase, TypeRules
Expr(e) ==
  /\ Required(e.f, e.t, e.u) => e.ok = 1
  /\ Forbidden(e.f, e.t, e.u) => e.ok = 0
  /\ e.ok = 1 /\ Required(e.f, e.t, e.u) => e.ty = TypeOf(e.f, e.t, e.u)
Typing(e) ==
  CASE e.op = "expr" -> Expr(e)
    [] e.op = "is" -> e.q \in Predicates /\ e.ok = (IF Holds(e.q, e.t) THEN 1 ELSE 0)
    [] e.op = "build" -> e.ok = 1
    [] e.op = "include" -> e.first \in Headers /\ e.then \in Headers /\ e.ok = 1
    [] e.op = "constant" -> <<e.name, e.t>> \in Constants /\ e.ok = 1
    [] OTHER -> FALSE
=============================================================================
