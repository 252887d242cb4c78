---------------------------- MODULE PlanConstants ---------------------------
(* Everything a constant expression may use *)
EXTENDS TypeRules
VARIABLE p
Init == p \in Constants
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
