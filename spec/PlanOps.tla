------------------------------ MODULE PlanOps -------------------------------
(***************************************************************************)
(* The calls to execute for the arithmetic conformance checks: every       *)
(* operation on every operand type pair the specification says exists,     *)
(* crossed with the operand strata and operand relations the harness can   *)
(* draw.  Each state of this specification is one planned call; TLC        *)
(* enumerates them all and the check executes the dumped states.           *)
(***************************************************************************)
EXTENDS GTypes
CONSTANTS Ops, NStrata, NRel, Phase, Every
VARIABLE p

Strata == 0..(NStrata - 1)
\* operations that cannot leave the number range are also planned at its ends
StrataOf(op) == IF op \in {"mul", "sq", "cube"} THEN Strata ELSE Strata \cup {NStrata}
Rels == 0..(NRel - 1)
Available(op, t) == CASE op \in {"sq", "cube"} -> ProdGrades(GradesOf(t), GradesOf(t)) \subseteq GradesOf(t)
                      [] op \in {"neg", "oddverse", "dirverse"} -> t # "double"
                      [] OTHER -> TRUE
Wide == {2, 5, 8, 9, 15, 17, 18, 20}      \* strata of a huge factor and a tiny one
Shares == 0..10                          \* ways for operands of different types to share component values
Common == {0, 2, 10, 20}                 \* strata of the partners of a nearly neutral operand
Near == 0..7                             \* nearly neutral operands for each
\* mode E: every basis element of one type times every one of the other (complete, not selected)
Binary == {"mul", "add", "sub"} \cap Ops
Unary == Ops \ Binary
Pair(op, t, u) == IF op = "mul" THEN {t, u} # {"double"} ELSE AddOk(t, u)
TypeNo(t) == CASE t = "double" -> 0 [] t = "Scalar" -> 1 [] t = "Vector" -> 2 [] t = "BiVector" -> 3 [] t = "TriVector" -> 4
               [] t = "Spinor" -> 5 [] t = "ImSpin" -> 6 [] t = "ComPlex" -> 7 [] t = "DirPlex" -> 8 [] OTHER -> 9
\* a rotating selection: each run covers every row and column of the cross product
Chosen(t, u, s, k) == (s + 3 * k + TypeNo(t) + 2 * TypeNo(u) + Phase) % Every = 0

Init ==
  \/ \E op \in Binary, t, u \in Types : Pair(op, t, u) /\
       \/ \E s, k \in StrataOf(op) : Chosen(t, u, s, k) /\ p = <<op, t, u, s, "S", k>>
       \/ op = "mul" /\ \E s \in 0..(Dim(t) - 1), k \in 0..(Dim(u) - 1) : p = <<op, t, u, s, "E", k>>
       \/ op = "mul" /\ \E s, k \in Wide : Chosen(t, u, s, k) /\ p = <<op, t, u, s, "X", k>>
       \/ \E s \in StrataOf(op), k \in Rels : Chosen(t, u, s, k) /\ p = <<op, t, u, s, "N", k>>
       \/ \E s \in Strata, k \in Shares : Chosen(t, u, s, k) /\ p = <<op, t, u, s, "V", k>>
       \/ \E s \in Common, k \in Near : p = <<op, t, u, s, "I", k>>
       \/ t = u /\ \E s \in StrataOf(op), k \in Rels : p = <<op, t, t, s, "R", k>>
       \/ t = u /\ \E s \in StrataOf(op) : p = <<op, t, t, s, "A", 0>>
  \/ \E op \in Unary, t \in Types : Available(op, t) /\
       \E s \in StrataOf(op), k \in Rels : p = <<op, t, "-", s, "N", k>>
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
\* every planned product has a result type in the specification
Defined == p[1] = "mul" => HasSmallest(ProdGrades(GradesOf(p[2]), GradesOf(p[3])))
=============================================================================
