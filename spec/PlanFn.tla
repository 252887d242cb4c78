------------------------------- MODULE PlanFn -------------------------------
(***************************************************************************)
(* The function calls to execute: every function, every operand type it is *)
(* specified for, every operand stratum of the harness and every calling   *)
(* pattern (once; repeated with another call in between; next to a nearly  *)
(* equal operand).                                                         *)
(***************************************************************************)
EXTENDS GTypes
CONSTANTS Fns, NStrata
VARIABLE p
Has(f, t) == CASE f = "magSq" -> TRUE
               [] f \in {"magnitude", "pairMagDir", "direction", "ampSq", "amplitude"} -> t # "double"
               [] f = "inverse" -> t \in BladeTypes \cup {"ComPlex", "MultiVector"}
               [] f = "exp" -> t \in {"BiVector", "Spinor", "MultiVector"}
               [] f \in {"log", "sqrt"} -> t = "Spinor"
               [] OTHER -> FALSE
Init == \E f \in Fns, t \in Types, s \in 0..(NStrata - 1), m \in 0..2 : Has(f, t) /\ p = <<f, t, s, m>>
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
