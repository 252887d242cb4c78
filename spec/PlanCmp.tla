------------------------------- MODULE PlanCmp -------------------------------
(* The comparisons to execute: function, type, reference stratum, relation   *)
(* of the test value to the reference, and tolerance class.                  *)
EXTENDS GTypes
CONSTANTS NRef, NRel, NTol, NEqRel, Part
VARIABLE p
Arrays == {"array1", "array2", "array3", "array4", "array5", "array6", "array8", "array9", "array17"}
Init ==
  \/ Part = "near" /\
     \/ \E t \in Types \cup Arrays, s \in 0..(NRef - 1), k \in 0..(NRel - 1), q \in 0..(NTol - 1) : p = <<"near", t, s, k, q>>
     \/ \E f \in {"rel", "abs", "smallDiff", "small", "bothValid"}, s \in 0..(NRef - 1), k \in 0..(NRel - 1), q \in 0..(NTol - 1) :
          p = <<f, "double", s, k, q>>
     \/ \E a, b \in 0..1 : p = <<"bool", "double", a, b, 0>>
  \/ Part = "eq" /\
     \E t \in Entities \ {"ComPlex", "DirPlex"}, s \in 0..19, k \in 0..(NEqRel - 1), i \in 1..8 :
          i <= Dim(t) /\ p = <<"eq", t, s, k, i>>
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
