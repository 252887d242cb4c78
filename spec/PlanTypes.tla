------------------------------ MODULE PlanTypes ------------------------------
(* Every call that must be there and every call that must not be *)
EXTENDS TypeRules
VARIABLE p
Init == p \in {c \in AllCalls : Required(c[1], c[2], c[3]) \/ Forbidden(c[1], c[2], c[3])}
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
