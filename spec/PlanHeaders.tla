----------------------------- MODULE PlanHeaders -----------------------------
(* Every documented header alone (first = then), or every ordered pair *)
EXTENDS TypeRules
CONSTANT Pairs
VARIABLE p
Init == p \in {h \in Headers \X Headers : Pairs = 1 \/ h[1] = h[2]}
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
