------------------------------ MODULE PlanValid ------------------------------
(***************************************************************************)
(* Validity: which component patterns to try (every class in every         *)
(* position), and which calls to poison with NaN in which operand and      *)
(* component.                                                              *)
(***************************************************************************)
EXTENDS GTypes
VARIABLE p
Classes == {"zero", "negzero", "normal", "sub", "nan", "inf", "neginf"}
Odd == Classes \ {"normal"}
\* small types: every combination; larger ones: every pair of positions
Patterns(n) == IF n <= 4 THEN [1..n -> Classes]
               ELSE {[i \in 1..n |-> IF i = j THEN c ELSE IF i = k THEN d ELSE "normal"] : j, k \in 1..n, c, d \in Classes}
Unary == {"neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube", "magSq", "magnitude", "pairMagDir",
          "direction", "ampSq", "amplitude", "inverse", "exp", "log", "sqrt", "embed", "isValid"}
Has1(f, t) ==
  CASE f \in {"sq", "cube"} -> t \in {"double", "Scalar", "Spinor", "ComPlex", "MultiVector"}
    [] f \in {"reverse", "magSq", "dual", "isValid"} -> TRUE
    [] f = "embed" -> t # "MultiVector"
    [] f = "inverse" -> t \in BladeTypes \cup {"ComPlex", "MultiVector"}
    [] f = "exp" -> t \in {"BiVector", "Spinor", "MultiVector"}
    [] f \in {"log", "sqrt"} -> t = "Spinor"
    [] OTHER -> t # "double"
Has2(f, t, u) ==
  CASE f = "mul" -> {t, u} # {"double"}
    [] f \in {"add", "sub"} -> AddOk(t, u)
    [] f = "near" -> t = u
    [] f = "eq" -> t = u /\ t \notin {"double", "ComPlex", "DirPlex"}
    [] OTHER -> t = "Spinor" /\ u = "BiVector"
\* 0: every component NaN (null); i: only component i
Init ==
  \/ \E t \in Types : \E q \in Patterns(Dim(t)) : p = <<"valid", t, q>>
  \/ \E n \in 1..5 : \E q \in (IF n <= 4 THEN Patterns(n) ELSE {[i \in 1..5 |-> IF i = j THEN c ELSE "normal"] : j \in 1..5, c \in Classes}) : p = <<"array", n, q>>
  \/ \E n \in {6, 7, 8, 9, 12, 16, 17, 33} : \E j \in 1..n, c \in Classes : p = <<"array", n, [i \in 1..n |-> IF i = j THEN c ELSE "normal"]>>
  \/ \E t \in Types : p = <<"null", t, <<>>>>
  \/ \E t \in Types, s \in 0..21, m \in 1..6 : p = <<"gen", t, s, m>>   \* ordinary values of every stratum
  \/ \E f \in Unary, t \in Types : Has1(f, t) /\ \E i \in 0..Dim(t) : p = <<"poison", f, t, "-", "a", i>>
  \/ \E f \in {"mul", "add", "sub", "near", "eq"}, t, u \in Types : Has2(f, t, u) /\
       \/ \E i \in 0..Dim(t) : p = <<"poison", f, t, u, "a", i>>
       \/ \E i \in 0..Dim(u) : p = <<"poison", f, t, u, "b", i>>
       \/ p = <<"poison", f, t, u, "ab", 0>>
  \/ \E f \in {"logPlane", "sqrtPlane"}, i \in 0..4 : p = <<"poison", f, "Spinor", "BiVector", "a", i>>
  \/ \E f \in {"logPlane", "sqrtPlane"} : p = <<"halfturn", f, "Spinor", "BiVector", "b", 0>>
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
=============================================================================
