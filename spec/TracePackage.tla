---------------------------- MODULE TracePackage ----------------------------
(***************************************************************************)
(* What a carried out life of the package must have shown.  "build": the   *)
(* package was configured, built and delivered.  "consume": a project of   *)
(* its own asked for it; if the request can be met, every documented       *)
(* header compiles on its own from the delivered files alone, the program  *)
(* links and runs, and all tell the same version (of the source tree's     *)
(* project, of the package found, of the library linked, before main and   *)
(* after) and the identity the build was given.                            *)
(***************************************************************************)
EXTENDS TraceBase, TypeRules
Pkg == INSTANCE Package WITH Impl <- "sound", build <- 0, prefix <- 0, src <- TRUE, last <- 0
Delivered(e) == e.configured = 1 /\ e.built = 1 /\ e.delivered = 1
Everywhere(e) == {<<h[1], h[2]>> : h \in {e.headers[i] : i \in 1..Len(e.headers)}} = {<<h, 1>> : h \in Headers}
Identified(e) == \A i \in 1..Len(e.identities) :
                   IF e.ident = "given" THEN e.identities[i] = e.given ELSE e.identities[i] = e.identities[1] /\ e.identities[i] # ""
Versions(e) == e.project # "" /\ e.found = e.project /\ \A i \in 1..Len(e.versions) : e.versions[i] = e.project
Works(e) == /\ Everywhere(e) /\ e.linked = 1 /\ e.ended = 0 /\ Len(e.versions) = 6 /\ Len(e.identities) = 6
            /\ Identified(e) /\ Versions(e)
Life(e) ==
  CASE e.op = "deliver" -> Delivered(e)
    [] e.op = "consume" -> IF Pkg!Promise(e.request) = "works" THEN Works(e) ELSE e.found = ""
    [] OTHER -> FALSE
=============================================================================
