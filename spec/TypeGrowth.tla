----------------------------- MODULE TypeGrowth -----------------------------
(***************************************************************************)
(* Expressions growing by one operation at a time, seen as their types     *)
(* only: from any operand every expression the rules admit has a type, the *)
(* type carries every grade the value can have, and no two association     *)
(* orders disagree about the grades that matter.                           *)
(***************************************************************************)
EXTENDS TypeRules
VARIABLES ty, gr, depth
\* gr: the grades the value can really have, tracked from the operands
Init == \E t \in Types : ty = t /\ gr = GradesOf(t) /\ depth = 0
Grow(t, g) == ty' = t /\ gr' = g /\ depth' = IF depth < 6 THEN depth + 1 ELSE depth
Next == \/ \E u \in Types : {ty, u} # {"double"} /\
             \/ Grow(TypeOf("mul", ty, u), ProdGrades(gr, GradesOf(u)))
             \/ Grow(TypeOf("mul", u, ty), ProdGrades(GradesOf(u), gr))
        \/ \E u \in Entities : AddOk(ty, u) /\ Grow(TypeOf("add", ty, u), gr \cup GradesOf(u))
        \/ ty # "double" /\ Grow(TypeOf("dual", ty, "-"), ProdGrades(gr, {3}))
        \/ \E f \in {"reverse", "oddverse", "dirverse", "neg"} : ty # "double" /\ Grow(TypeOf(f, ty, "-"), gr)
Spec == Init /\ [][Next]_<<ty, gr, depth>>

First == depth < 1
Typed == ty \in Types
Carries == gr \subseteq GradesOf(ty)
\* every set of grades a product can have has one smallest type
Unique == \A t, u \in Types : HasSmallest(ProdGrades(GradesOf(t), GradesOf(u)))
Symmetric == \A t, u \in Types : MulType(t, u) = MulType(u, t) /\ AddOk(t, u) = AddOk(u, t)
Associative == \A t, u, v \in Entities :
  LET l == GradesOf(MulType(MulType(t, u), v)) r == GradesOf(MulType(t, MulType(u, v)))
      x == ProdGrades(ProdGrades(GradesOf(t), GradesOf(u)), GradesOf(v))
  IN x \subseteq l \cap r
DualDual == \A t \in Entities : DualType(DualType(t)) = t
=============================================================================
