----------------------------- MODULE PlanNames -----------------------------
(* The programs, and the cases of each group. *)
EXTENDS NameCases
CONSTANT What
VARIABLE p
Init == p \in CASE What = "programs" -> Programs [] What = "name" -> NameCase [] What = "operator" -> OperatorCase
                [] What = "function" -> FunctionCase [] What = "bare" -> {<<k[1], k[2], k[3], IF Natural(k) THEN 1 ELSE 0>> : k \in BareCase} [] What = "convert" -> ConvertCase [] What = "prelude" -> PreludeWord
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
