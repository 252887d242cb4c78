---------------------------- MODULE PlanPackage ----------------------------
(* Lives of the package to be carried out: how it is built and delivered, and how it is consumed. *)
EXTENDS Package
CONSTANTS Phase, Every
VARIABLE p
Bit(b) == IF b THEN 1 ELSE 0
Number(q) == 2 * Bit(q[1] = "g++") + 3 * Bit(q[2] = "Debug") + 5 * Bit(q[3] = "given") + 7 * Bit(q[4] = "pack") + 11 * Bit(q[5])
             + 13 * Bit(q[6]) + 17 * Bit(q[7] = "g++") + 19 * Bit(q[8] = "20")
             + 29 * (CASE q[9] = "any" -> 0 [] q[9] = "same" -> 1 [] q[9] = "older" -> 2 [] q[9] = "newer" -> 3 [] OTHER -> 4)
PlanInit == /\ Init
            /\ p \in {q \in Compilers \X Kinds \X Idents \X Vias \X BOOLEAN \X BOOLEAN \X Compilers \X Stds \X Requests :
                        (Number(q) + Phase) % Every = 0}
PlanSpec == PlanInit /\ [][UNCHANGED <<vars, p>>]_<<vars, p>>
=============================================================================
