------------------------------ MODULE PlanFmt --------------------------------
(* Which encodings are exercised: every encoder, every type that has it, every
   stratum of operands, and every magnitude/rounding variant of a component *)
EXTENDS GTypes, TLC
CONSTANTS NStrata, NKind, Counts
VARIABLE p
Enc == {"double", "Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "MultiVector"}
Plans == {<<o, t, s, b, n>> : o \in {"fixed"}, t \in Enc, s \in 0..(NStrata + NKind - 1), b \in Counts, n \in Counts}
    \cup {<<o, t, s, b, n>> : o \in {"enote"}, t \in Enc, s \in 0..(NStrata + NKind - 1), b \in {0}, n \in Counts}
    \cup {<<o, t, s, b, n>> : o \in {"put"}, t \in Entities, s \in 0..(NStrata + NKind - 1), b \in {0}, n \in 0..3}
    \cup {<<o, t, s, b, n>> : o \in {"back"}, t \in Enc \ {"double"}, s \in 0..(NStrata + NKind - 1), b \in {0}, n \in {0}}
Init == p \in Plans
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
