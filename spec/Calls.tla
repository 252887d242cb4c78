-------------------------------- MODULE Calls --------------------------------
(* The calls of the library and the operand types each is available for *)
EXTENDS GTypes

Binary == {"mul", "add", "sub"}
Unary == {"neg", "reverse", "oddverse", "dirverse", "dual", "sq"}
Observers2 == {"near", "eq", "logPlane", "sqrtPlane"}
Observers1 == {"magSq", "magnitude", "pairMagDir", "direction", "ampSq", "amplitude", "inverse", "exp", "log", "sqrt",
               "isValid", "fixed", "enote", "put", "embed", "cube"}
Has2(op, t, u) == IF op = "mul" THEN {t, u} # {"double"} ELSE AddOk(t, u)
Has1(op, t) == CASE op = "sq" -> ProdGrades(GradesOf(t), GradesOf(t)) \subseteq GradesOf(t)
                 [] op \in {"neg", "oddverse", "dirverse"} -> t # "double"
                 [] OTHER -> TRUE
HasO1(op, t) == CASE op \in {"magnitude", "pairMagDir", "direction", "ampSq", "amplitude", "put"} -> t # "double"
                  [] op = "inverse" -> t \in BladeTypes \cup {"ComPlex", "MultiVector"}
                  [] op = "exp" -> t \in {"BiVector", "Spinor", "MultiVector"}
                  [] op \in {"log", "sqrt"} -> t = "Spinor"
                  [] op \in {"fixed", "enote"} -> t \notin {"ComPlex", "DirPlex"}
                  [] op = "embed" -> t # "MultiVector"
                  [] op = "cube" -> ProdGrades(GradesOf(t), GradesOf(t)) \subseteq GradesOf(t)
                  [] OTHER -> TRUE
HasO2(op, t, u) == CASE op = "near" -> t = u
                     [] op = "eq" -> t = u /\ t \notin {"double", "ComPlex", "DirPlex"}
                     [] OTHER -> t = "Spinor" /\ u = "BiVector"
AllCalls == {<<op, t, u>> : op \in Binary \cup Observers2, t, u \in Types} \cup {<<op, t, "-">> : op \in Unary \cup Observers1, t \in Types}
Available(c) == CASE c[1] \in Binary -> Has2(c[1], c[2], c[3])
                  [] c[1] \in Observers2 -> HasO2(c[1], c[2], c[3])
                  [] c[1] \in Unary -> Has1(c[1], c[2])
                  [] OTHER -> HasO1(c[1], c[2])
=============================================================================
