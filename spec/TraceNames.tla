----------------------------- MODULE TraceNames -----------------------------
(***************************************************************************)
(* What the compiler made of the cases of NameCases.  A line "cases" tells *)
(* that a program with all the cases of a group compiled (every use found  *)
(* what Names.tla says it means without the library); when it does not,    *)
(* each case is tried in a program of its own and has a line "case".  (The *)
(* words of the name group are those of NameCases, declared and used, and  *)
(* whatever else the headers mention or define, declared.)                 *)
(***************************************************************************)
EXTENDS TraceBase, NameCases
Member(e) ==
  CASE e.group = "name" -> e.case[2] \in Kinds /\ e.case[3] \in Scopes [] e.group = "operator" -> e.case \in OperatorCase [] e.group = "function" -> e.case \in FunctionCase
    [] e.group = "bare" -> SubSeq(e.case, 1, 3) \in BareCase /\ e.case[4] = (IF Natural(e.case) THEN 1 ELSE 0) [] e.group = "convert" -> e.case \in ConvertCase [] OTHER -> FALSE
Transparent(e) ==
  CASE e.op = "cases" -> <<e.header, e.position, e.directive>> \in Programs /\ e.ok = 1
    [] e.op = "case" -> <<e.header, e.position, e.directive>> \in Programs /\ Member(e) /\ Promised(e.group, e.case, e.directive) /\ e.ok = 1
    [] OTHER -> FALSE
=============================================================================
