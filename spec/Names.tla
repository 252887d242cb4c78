------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names and calls of a program that includes the library.                 *)
(*                                                                         *)
(* A translation unit declares things of its own in the global scope and   *)
(* in a namespace of its own ("mine"), includes the library at some point  *)
(* and uses names and operators.  Lookup is C++'s: the innermost scope     *)
(* that has the name; namespaces nominated by a directive (the library's   *)
(* anonymous namespace always is) count as global; a name of two things    *)
(* that are not all functions is ambiguous; a call adds what the namespaces*)
(* of its arguments have and takes the best of the viable functions.       *)
(* A use must mean what it means without the library.                      *)
(*                                                                         *)
(*   Impl  "sound"      operators take entities only; nothing but those    *)
(*                      operators is made visible outside the library      *)
(*         "leaky"      a header nominates the library's namespace         *)
(*         "alias"      a header declares one library type globally        *)
(*         "greedy"     a published operator template takes any type       *)
(*         "mixed"      ... any type together with an entity               *)
(*         "implicit"   a number converts to an entity by itself           *)
(*         "macro"      a header defines a macro of a common name          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Impl, MaxDecls
Directives == {"none", "engabra", "g3"}
Own == {"own", "sub", "plain"}              \* a type, one derived from it, and one with no operators
Values == Own \cup {"entity", "double"}
\* names: a type, a constant, a namespace and a function of the library; an operator; a common word
Words == {"T", "c", "ns", "f", "word"}
NoPar == <<>>
D(owner, at, name, kind, takes, any) == [owner |-> owner, at |-> at, name |-> name, kind |-> kind, takes |-> takes, any |-> any]

Library ==
  {D("lib", "g3", "T", "type", NoPar, FALSE), D("lib", "g3", "c", "var", NoPar, FALSE), D("lib", "g3", "ns", "namespace", NoPar, FALSE),
   D("lib", "g3", "f", "func", <<"entity">>, FALSE),
   D("lib", "g3", "op", "func", <<"entity", "entity">>, FALSE), D("lib", "g3", "op", "func", <<"double", "entity">>, FALSE),
   D("lib", "anon", "op", "func", <<"entity", "entity">>, FALSE), D("lib", "anon", "op", "func", <<"double", "entity">>, FALSE)}
  \cup (IF Impl = "alias" THEN {D("lib", "global", "T", "type", NoPar, FALSE)} ELSE {})
  \cup (IF Impl = "greedy" THEN {D("lib", a, "op", "func", <<"any", "any">>, TRUE) : a \in {"g3", "anon"}} ELSE {})
  \cup (IF Impl = "mixed" THEN {D("lib", a, "op", "func", <<"any", "entity">>, TRUE) : a \in {"g3", "anon"}} ELSE {})
Nominated(inc, dir) == (IF inc THEN {"anon"} \cup (IF Impl = "leaky" THEN {"g3"} ELSE {}) ELSE {}) \cup (IF inc /\ dir = "g3" THEN {"g3"} ELSE {})

\* how well a parameter fits an argument: 3 itself, 2 its base, 1 a conversion, 0 not at all
Fit(p, a) ==
  CASE p = "any" \/ p = a -> 3
    [] p = "own" /\ a = "sub" -> 2
    [] p = "own" /\ a = "double" -> 1              \* the program's type is made from a number
    [] p = "entity" /\ a = "double" /\ Impl = "implicit" -> 1
    [] OTHER -> 0
Viable(d, args) == d.kind = "func" /\ Len(d.takes) = Len(args) /\ \A i \in 1..Len(args) : Fit(d.takes[i], args[i]) > 0
\* templates rank behind functions that fit as well
Better(d, e, args) ==
  /\ \A i \in 1..Len(args) : Fit(d.takes[i], args[i]) >= Fit(e.takes[i], args[i])
  /\ (\E i \in 1..Len(args) : Fit(d.takes[i], args[i]) > Fit(e.takes[i], args[i])) \/ (e.any /\ ~d.any)
Same(d, e) == d.owner = "lib" /\ e.owner = "lib" /\ d.takes = e.takes /\ d.any = e.any     \* a using-declaration and what it names

Home(a, here) == IF a = "entity" THEN {"g3"} ELSE IF a = "double" THEN {} ELSE {here}
\* what lookup of a name from a scope finds; decls: everything declared
Ordinary(decls, name, scope, nom) ==
  LET at(s) == {d \in decls : d.name = name /\ d.at \in s}
      mine == at({"mine"}) glob == at({"global"} \cup nom)
  IN IF scope = "mine" /\ mine # {} THEN mine ELSE glob
Means(found) == IF found = {} THEN "none" ELSE IF Cardinality(found) = 1 THEN (CHOOSE d \in found : TRUE).owner ELSE "ambiguous"
Name(decls, name, scope, nom) == Means(Ordinary(decls, name, scope, nom))
\* the program's types live in scope `home`
Call(decls, name, scope, nom, args, home) ==
  LET o == Ordinary(decls, name, scope, nom)
      adl == {d \in decls : d.name = name /\ d.kind = "func" /\ d.at \in UNION {Home(args[i], home) : i \in 1..Len(args)}}
      set == {d \in o \cup adl : Viable(d, args)}
      best == {d \in set : \A e \in set : e = d \/ Same(d, e) \/ Better(d, e, args)}
  IN IF \E d \in o : d.kind # "func" THEN (IF Cardinality(o) > 1 THEN "ambiguous" ELSE "none")
     ELSE IF set = {} THEN "none" ELSE IF best = {} THEN "ambiguous" ELSE (CHOOSE d \in best : TRUE).owner

VARIABLES inc, decls, last
vars == <<inc, decls, last>>
NoUse == [with |-> "-", without |-> "-"]
Init == inc = FALSE /\ decls = {} /\ last = NoUse
Mangled(name) == Impl = "macro" /\ inc /\ name = "word"
Include == ~inc /\ inc' = TRUE /\ UNCHANGED <<decls, last>>
Kinds == {"type", "var", "namespace", "func"}
\* parameters of the program's functions: always something of its own
Takes(name, kind) == IF kind # "func" THEN {NoPar} ELSE IF name = "op" THEN {<<"own", "own">>, <<"own", "entity">>, <<"entity", "own">>} ELSE {<<"own">>}
Declare(at, name, kind) ==
  /\ Cardinality(decls) < MaxDecls
  /\ (name = "op") => (kind = "func")
  /\ \A d \in decls : (d.name = name /\ d.at = at) => (kind = "func" /\ d.kind = "func")
  /\ \E t \in Takes(name, kind) : decls' = decls \cup {D("own", at, IF Mangled(name) THEN "mangled" ELSE name, kind, t, FALSE)}
  /\ last' = IF Mangled(name) THEN [with |-> "broken", without |-> "own"] ELSE NoUse
  /\ UNCHANGED inc
All == decls \cup (IF inc THEN Library ELSE {})
UseName(name, scope) ==
  /\ last' = [with |-> IF Mangled(name) THEN "broken" ELSE Name(All, name, scope, Nominated(inc, "none")), without |-> Name(decls, name, scope, {})]
  /\ last'.without # "none"
  /\ UNCHANGED <<inc, decls>>
\* a call with an argument of the program's own, or of an operator
UseCall(name, scope, args, home, dir) ==
  /\ \E i \in 1..Len(args) : args[i] \in Own
  /\ last' = [with |-> Call(All, name, scope, Nominated(inc, dir), args, home), without |-> Call(decls, name, scope, {}, args, home)]
  /\ name # "op" => last'.without = "own"
  /\ UNCHANGED <<inc, decls>>
\* a number given to a function of the program that takes what is made from numbers
UseNumber(scope, dir) ==
  /\ last' = [with |-> Call(All, "f", scope, Nominated(inc, dir), <<"double">>, scope), without |-> Call(decls, "f", scope, {}, <<"double">>, scope)]
  /\ last'.without = "own"
  /\ UNCHANGED <<inc, decls>>
Next ==
  \/ Include
  \/ \E at \in {"global", "mine"}, n \in Words \cup {"op"}, k \in Kinds : Declare(at, n, k)
  \/ \E s \in {"global", "mine"} :
       \/ \E n \in Words : UseName(n, s)
       \/ \E h \in {"global", "mine"}, dir \in Directives :
            \/ \E a \in Own : UseCall("f", s, <<a>>, h, dir)
            \/ \E a \in Values, b \in Values : UseCall("op", s, <<a, b>>, h, dir)
       \/ \E dir \in Directives : UseNumber(s, dir)
Spec == Init /\ [][Next]_vars
\* including the library changes the meaning of no use
Transparent == last.with = last.without
=============================================================================
