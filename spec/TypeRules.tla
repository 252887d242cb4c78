----------------------------- MODULE TypeRules ------------------------------
(***************************************************************************)
(* Which expressions are well formed, and their types, as a consequence of *)
(* the grades an operation can produce.                                    *)
(***************************************************************************)
EXTENDS Calls

\* the grades of everything f(t) or f(t,u) can yield
Yields(f, t, u) ==
  CASE f = "mul" -> ProdGrades(GradesOf(t), GradesOf(u))
    [] f \in {"add", "sub"} -> GradesOf(t) \cup GradesOf(u)
    [] f \in {"neg", "reverse", "oddverse", "dirverse", "direction"} -> GradesOf(t)
    [] f = "dual" -> ProdGrades(GradesOf(t), {3})
    [] f \in {"ampSq", "amplitude"} -> {0, 3}
    [] f = "sq" -> GradesOf(t)
    [] f = "cube" -> GradesOf(t)
    [] f = "inverse" -> GradesOf(t)
    [] f = "exp" -> IF t = "MultiVector" THEN 0..3 ELSE {0, 2}
    [] f \in {"log", "sqrt", "logPlane", "sqrtPlane"} -> {0, 2}
    [] OTHER -> {}
Boolean == {"isValid", "eq", "near"}
Number == {"magSq", "magnitude"}
Strings == {"fixed", "enote"}
\* the type of the expression
TypeOf(f, t, u) ==
  CASE f \in Boolean -> "bool"
    [] f \in Number -> "double"
    [] f \in Strings -> "string"
    [] f = "put" -> "ostream"
    [] f = "embed" -> "MultiVector"
    [] f = "pairMagDir" -> t                                  \* of the direction it returns
    [] t = "double" /\ f \in {"reverse", "sq", "cube"} -> "double"
    [] OTHER -> Smallest(Yields(f, t, u))
\* calls that must be there
Required(f, t, u) == Available(<<f, t, u>>)
\* calls that must not be there: a sum whose grades are no type's
Forbidden(f, t, u) == f \in {"add", "sub"} /\ t \in Entities /\ u \in Entities /\ ~AddOk(t, u)
\* the documented headers; any one or two of them, in either order, make a program that builds
Headers == {"Engabra", "engabra.hpp", "g3type.hpp", "g3const.hpp", "g3compare.hpp", "g3validity.hpp", "g3ops.hpp", "g3opsUni.hpp",
            "g3opsAdd.hpp", "g3opsSub.hpp", "g3opsMul.hpp", "g3io.hpp", "g3func.hpp", "g3traits.hpp", "g3publish.hpp"}
\* what a constant expression may use: the numbers, and the makers of the types without constructors of their own
Literals == {"double", "Scalar", "Vector", "BiVector", "TriVector", "Spinor", "ImSpin", "DirPlex"}
Numbers == {"pi", "piHalf", "piQtr", "turnFull", "turnHalf", "turnQtr", "nan"}
Constants == {<<n, "double">> : n \in Numbers} \cup ({"null", "zero"} \X Literals) \cup ({"one"} \X {"double", "Scalar", "Vector", "BiVector", "Spinor"})
\* the type predicates
Predicates == {"blade"} \cup Entities
Holds(q, t) == IF q = "blade" THEN t \in BladeTypes ELSE t = q
=============================================================================
