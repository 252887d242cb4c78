------------------------------- MODULE GTypes -------------------------------
(***************************************************************************)
(* The entity types of the library as sets of grades, the component        *)
(* layout of each, and the type every operation must return.               *)
(***************************************************************************)
EXTENDS Blades

Entities == {"Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin",
             "ComPlex", "DirPlex", "MultiVector"}
Types == Entities \cup {"double"}
BladeTypes == {"Scalar", "Vector", "BiVector", "TriVector"}

GradesOf(t) == CASE t = "double" -> {0}
                 [] t = "Scalar" -> {0}
                 [] t = "Vector" -> {1}
                 [] t = "BiVector" -> {2}
                 [] t = "TriVector" -> {3}
                 [] t = "Spinor" -> {0, 2}
                 [] t = "ImSpin" -> {1, 3}
                 [] t = "ComPlex" -> {0, 3}
                 [] t = "DirPlex" -> {1, 2}
                 [] t = "MultiVector" -> {0, 1, 2, 3}

\* canonical blade indices of the components of a type, in order
LayoutT == [t \in Types |-> SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8>>, LAMBDA k : GradeOf(k) \in GradesOf(t))]
Layout(t) == LayoutT[t]
Dim(t) == Len(Layout(t))
\* position of canonical component k in type t (0: not carried)
PosT == [t \in Types |-> [k \in K |->
          IF \E p \in 1..Dim(t) : Layout(t)[p] = k THEN CHOOSE p \in 1..Dim(t) : Layout(t)[p] = k ELSE 0]]
Pos(t) == PosT[t]

\* the smallest entity type that carries all the grades in g
Smallest(g) == CHOOSE t \in Entities :
                 /\ g \subseteq GradesOf(t)
                 /\ \A u \in Entities : g \subseteq GradesOf(u) => GradesOf(t) \subseteq GradesOf(u)
HasSmallest(g) == \E t \in Entities :
                 /\ g \subseteq GradesOf(t)
                 /\ \A u \in Entities : g \subseteq GradesOf(u) => GradesOf(t) \subseteq GradesOf(u)

\* grades a product of elements with grades g and h can have
ProdGrades(g, h) == {GradeOf(MulTab[i][j][2]) : i \in {i \in K : GradeOf(i) \in g},
                                                 j \in {j \in K : GradeOf(j) \in h}}
MulType(t, u) == Smallest(ProdGrades(GradesOf(t), GradesOf(u)))
\* a sum is available when some entity type has exactly the united grades
\* (a plain double takes part in products only)
AddGrades(t, u) == GradesOf(t) \cup GradesOf(u)
AddOk(t, u) == t \in Entities /\ u \in Entities /\ \E v \in Entities : GradesOf(v) = AddGrades(t, u)
AddType(t, u) == CHOOSE v \in Entities : GradesOf(v) = AddGrades(t, u)
\* the dual: multiplication by the unit trivector
DualType(t) == Smallest(ProdGrades(GradesOf(t), {3}))
=============================================================================
