------------------------------ MODULE Package ------------------------------
(***************************************************************************)
(* The life of the package: configured (compiler, build type, identity     *)
(* given or not), built, installed or packed and unpacked, perhaps moved,  *)
(* the sources and the build tree perhaps gone, and then consumed by a     *)
(* project of its own (compiler, standard, version request) which includes *)
(* headers, links, runs and asks for the version.                          *)
(*   Impl  "sound"     everything a header needs is installed, and nothing *)
(*                     installed points anywhere else                      *)
(*         "forgot"    an included header is not on the install list       *)
(*         "fixed"     the exported configuration names the first prefix   *)
(*         "sources"   ... or the source tree                              *)
(*         "flags"     a header compiles only with the flags of the        *)
(*                     package's own build                                 *)
(*         "compiler"  the package builds with one compiler only           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Impl
Compilers == {"g++", "clang++"}
Kinds == {"Debug", "Release"}
Idents == {"given", "default"}
Vias == {"install", "pack"}
Stds == {"17", "20"}
Requests == {"any", "same", "older", "newer", "other"}
\* what a consumer asking for a version may expect (same major version, not newer)
Promise(request) == IF request \in {"any", "same", "older"} THEN "works" ELSE "refused"

\* headers of the design: "top" includes "a", which includes "b"
Closure == [top |-> {"top", "a", "b"}, a |-> {"a", "b"}, b |-> {"b"}]
Documented == {"top", "a"}
NoLast == [request |-> "none", got |-> "none"]
VARIABLES build, prefix, src, last
vars == <<build, prefix, src, last>>
\* prefix: where the package lies ("none", "first", "moved") and which headers are there
Init == build = [cxx |-> "none"] /\ prefix = [at |-> "none"] /\ src = TRUE /\ last = NoLast
Built == build.cxx # "none" /\ build.ok
Build(cxx, kind, id) ==
  /\ src /\ build.cxx = "none"
  /\ build' = [cxx |-> cxx, kind |-> kind, ident |-> id, ok |-> (Impl = "compiler" => cxx = "g++")]
  /\ last' = IF Impl = "compiler" /\ cxx # "g++" THEN [request |-> "build", got |-> "failed"] ELSE last
  /\ UNCHANGED <<prefix, src>>
Install(via) ==
  /\ Built /\ src /\ prefix.at = "none"
  /\ prefix' = [at |-> "first", have |-> {"top", "a"} \cup (IF Impl = "forgot" THEN {} ELSE {"b"})]
  /\ UNCHANGED <<build, src, last>>
Move == prefix.at = "first" /\ prefix' = [prefix EXCEPT !.at = "moved"] /\ UNCHANGED <<build, src, last>>
Drop == prefix.at # "none" /\ src /\ src' = FALSE /\ UNCHANGED <<build, prefix, last>>
Consume(h, request) ==
  /\ prefix.at # "none"
  /\ LET found == Promise(request) = "works" /\ (Impl = "fixed" => prefix.at = "first")
         compiled == /\ Closure[h] \subseteq prefix.have \/ (Impl = "sources" /\ src)
                     /\ ~(Impl = "flags" /\ "b" \in Closure[h])
                     /\ (Impl = "sources" => src)
     IN last' = [request |-> request, got |-> IF ~found THEN "refused" ELSE IF compiled THEN "works" ELSE "broken"]
  /\ UNCHANGED <<build, prefix, src>>
Next == \/ \E x \in Compilers, k \in Kinds, i \in Idents : Build(x, k, i)
        \/ \E v \in Vias : Install(v)
        \/ Move \/ Drop
        \/ \E h \in Documented, r \in Requests : Consume(h, r)
Spec == Init /\ [][Next]_vars
Kept == last.request \in Requests => last.got = Promise(last.request)
Builds == last.request = "build" => last.got = "works"
=============================================================================
