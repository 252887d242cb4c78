------------------------------ MODULE StoreOps ------------------------------
(***************************************************************************)
(* Objects as rows of cells: which cells an object of each type has, which *)
(* grade owns which cell, and what building, promoting, selecting and      *)
(* writing do to them.  Nothing here computes: cells are only moved, so    *)
(* the module does not depend on what a cell holds.                        *)
(***************************************************************************)
EXTENDS GTypes
CONSTANT ZeroCell                          \* the cell of an absent component

Obj(t, c) == [t |-> t, c |-> c]
\* the canonical blade row of an object
Row(o) == [k \in K |-> IF Pos(o.t)[k] = 0 THEN ZeroCell ELSE o.c[Pos(o.t)[k]]]
Narrow(t, row) == Obj(t, [n \in 1..Dim(t) |-> row[Layout(t)[n]]])
Promoted(o) == Narrow("MultiVector", Row(o))
HasGrade(t, g) == g \in GradesOf(t)
BladeOf(g) == CASE g = 0 -> "Scalar" [] g = 1 -> "Vector" [] g = 2 -> "BiVector" [] OTHER -> "TriVector"
\* the grade member of an object
Member(o, g) == Narrow(BladeOf(g), Row(o))
\* an object of type t whose grade g is taken from src[g + 1]
FromGrades(t, src) == Narrow(t, [k \in K |-> IF HasGrade(t, GradeOf(k)) THEN Row(src[GradeOf(k) + 1])[k] ELSE ZeroCell])
\* commuting and directed parts
FromParts(x, y) == Narrow("MultiVector", [k \in K |-> IF GradeOf(k) \in {0, 3} THEN Row(x)[k] ELSE Row(y)[k]])
WithMember(o, g, s) == Narrow(o.t, [k \in K |-> IF GradeOf(k) = g THEN Row(s)[k] ELSE Row(o)[k]])
WithCell(o, n, x) == Obj(o.t, [o.c EXCEPT ![n] = x])
=============================================================================
