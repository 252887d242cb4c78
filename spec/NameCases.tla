----------------------------- MODULE NameCases -----------------------------
(***************************************************************************)
(* The uses of Names.tla in the terms of the real library: the programs    *)
(* (which header, before or after the program's declarations, under which  *)
(* using-directive) and the cases each is to hold.                         *)
(***************************************************************************)
EXTENDS TypeRules
Positions == {"before", "after"}      \* of the program's declarations, is the library included
Directives == {"none", "engabra", "g3"}
Programs == Headers \X Positions \X Directives

\* words: what the library declares inside its namespaces, and what headers are apt to leave behind
LibTypes == Entities
LibFunctions == {"reverse", "oddverse", "dirverse", "dual", "magSq", "magnitude", "pairMagDirFrom", "direction", "ampSq", "amplitude", "inverse",
                 "logG2", "sqrtG2", "sq", "cube", "exp", "nearlyEquals", "nearlyEqualsAbs", "nearlyEqualsRel", "isValid", "fixed", "enote",
                 "null", "zero", "one", "sinhcFromSq", "put", "prepareEnote", "isSmallAbs", "isSmallAbsDiff", "bothAreValid", "isInputOkay",
                 "prodComm", "prodAnti", "binaryElementByElement", "projectVersion", "sourceIdentity"}
LibValues == {"pi", "piHalf", "piQtr", "turnFull", "turnHalf", "turnQtr", "e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123"}
LibSpaces == {"g3", "is", "io", "priv", "blade", "DoubleFormat", "Type", "Blade"}
Common == {"vector", "array", "string", "complex", "pair", "swap", "transform", "fixed", "scientific", "setw", "accumulate", "begin", "data", "size",
           "real", "imag", "norm", "abs_", "PI", "TWO_PI", "EPS", "EPSILON", "TOL", "DIM", "SIZE", "NULL_", "ENGABRA", "min", "max", "sqr", "SQ", "MIN", "MAX", "ABS", "SIGN", "sign",
           "Array", "Real", "Complex", "Value", "value", "tol", "theTol", "theData", "theSca", "theVec", "theBiv", "theTri", "numbers", "math", "detail", "impl", "util", "eps", "version", "VERSION",
           "I", "i", "x", "y", "z", "dot", "cross", "wedge", "Plane", "Point", "Rotor", "Matrix", "Quaternion", "operators"}
\* names the C library declares as functions; another entity of the name cannot be declared globally with or without this library
CNames == {"exp", "log", "sqrt"}
Words == LibTypes \cup LibFunctions \cup LibValues \cup LibSpaces \cup Common \cup CNames
Kinds == {"type", "template", "variable", "function", "namespace"}
Scopes == {"global", "mine"}
NameCase == {k \in Words \X Kinds \X Scopes : k[1] \in CNames => (k[2] = "function" \/ k[3] = "mine")}

\* calls of the program's own operators and functions
Operators == {"add", "sub", "mul", "eq", "put", "get", "neg"}
Places == {"global", "mine"}
\* how they are made ("number": for a base that converts to double)
Forms == {"member", "free", "friend", "base", "number", "implicit", "template"}
Sites == {"global", "mine", "other"}
Partners == {"self", "double", "stream"} \cup Entities
\* is the case one the language allows?  (a mixed operator is declared for exactly the types it mixes; entities have to be known)
OperatorCase ==
  {k \in Operators \X Places \X Forms \X Partners \X {"left", "right"} \X Sites \X Positions :
     LET op == k[1] form == k[3] partner == k[4] side == k[5] IN
       /\ op = "neg" => (partner = "self" /\ side = "left")
       /\ partner = "self" => side = "left"
       /\ partner = "stream" => (op \in {"put", "get"} /\ side = "right" /\ form # "member")
       /\ (form = "member") => side = "left"
       /\ partner \in Entities => k[7] = "before"}
\* functions of the program with the library's names, for its own types
\* (under a directive for g3 its templates of any type are candidates too, so only functions for exactly the own type are promised)
FunctionCase == LibFunctions \X Places \X {"free", "base", "implicit"} \X Sites
Promised(group, k, directive) == (group = "function" /\ directive = "g3") => k[3] = "free"
\* what a program may have before the library: words that are types, templates of functions taking anything, variables and namespaces
PreludeWord == (LibTypes \X {"type"}) \cup ((LibFunctions \cup CNames \cup {"sin", "cos", "abs", "cosh", "sinh", "hypot", "atan2"}) \X {"anything"})
               \cup (LibValues \X {"variable"}) \cup (LibSpaces \X {"namespace"})
\* (a "twin" has members named like those of the library's types)
\* operators on types that have none, and conversions, stay away
Bare == {"plain", "minePlain", "twin", "mineTwin", "array3", "array1", "vector", "pair", "pointer"}
\* (what these types have without the library)
Natural(k) == \/ (k[1] = "eq" /\ k[2] = k[3] /\ k[2] \in {"array3", "array1", "vector", "pair", "pointer"})
              \/ (k[2] = "pointer" /\ <<k[1], k[3]>> \in {<<"sub", "pointer">>, <<"sub", "int">>, <<"add", "int">>})
BareCase == {k \in Operators \X Bare \X (Bare \cup {"int", "double"} \cup Entities) : k[2] = k[3] \/ k[2] \in {"plain", "minePlain", "twin", "mineTwin"} \/ k[3] \notin Bare} \ ({"neg"} \X Bare \X ({"int", "double"} \cup Entities))
\* what does not convert into an entity by itself: everything but the entity
Sources == {"int", "double", "plain", "twin", "mineTwin", "array3", "array1", "complex"} \cup Entities
ConvertCase == {k \in Sources \X Entities : k[1] # k[2]}
=============================================================================
