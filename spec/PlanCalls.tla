------------------------------ MODULE PlanCalls ------------------------------
(* Every call of the library, for every operand types it is available for *)
EXTENDS Calls
VARIABLE p
Init == p \in {c \in AllCalls : Available(c)}
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
