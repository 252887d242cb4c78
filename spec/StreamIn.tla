------------------------------ MODULE StreamIn -------------------------------
(***************************************************************************)
(* Text extraction as a state machine.  The text is a sequence of tokens,  *)
(* each a number ("num"), something that is not a number ("bad"), or a     *)
(* number outside the double range ("huge").  A program extracts entities  *)
(* one after another.  One step reads one component.                       *)
(*                                                                         *)
(* out holds, for every component of every entity, the index of the token  *)
(* it came from, or 0 for NaN.                                             *)
(***************************************************************************)
EXTENDS Extraction, TLC
CONSTANT Phase
VARIABLES prog, toks, failed0,          \* the scenario (constant through a behaviour)
          ent, comp, pos, fail, out     \* where the extraction is

Types9 == Entities
OddAt(n, j, c) == [i \in 1..n |-> IF i = j THEN c ELSE "num"]
Texts(total) ==     \* enough numbers, one too few, one odd token somewhere, or text cut anywhere
       {[i \in 1..n |-> "num"] : n \in 0..(total + 1)}
  \cup {OddAt(total + 1, j, c) : j \in 1..total, c \in {"bad", "huge"}}
RECURSIVE TotalDim(_)
TotalDim(p) == IF p = <<>> THEN 0 ELSE Dim(Head(p)) + TotalDim(Tail(p))
TypeNo(t) == CASE t = "Scalar" -> 1 [] t = "Vector" -> 2 [] t = "BiVector" -> 3 [] t = "TriVector" -> 4
               [] t = "Spinor" -> 5 [] t = "ImSpin" -> 6 [] t = "ComPlex" -> 7 [] t = "DirPlex" -> 8 [] OTHER -> 9
Progs == {<<t>> : t \in Types9} \cup {<<t, u>> : t, u \in Types9}
         \cup {q \in {<<t, u, v>> : t, u, v \in Types9} : (TypeNo(q[1]) + 2 * TypeNo(q[2]) + 5 * TypeNo(q[3]) + Phase) % 27 = 0}

Init == /\ prog \in Progs
        /\ toks \in Texts(TotalDim(prog))
        /\ failed0 \in (IF Len(prog) = 1 THEN BOOLEAN ELSE {FALSE})
        /\ ent = 1 /\ comp = 1 /\ pos = 1 /\ fail = failed0
        /\ out = [i \in 1..Len(prog) |-> Blank(prog[i])]
Step == /\ ent <= Len(prog)
        /\ LET t == prog[ent]
               s == Read(t, toks, [comp |-> comp, pos |-> pos, fail |-> fail, vals |-> out[ent]])
           IN /\ out' = [out EXCEPT ![ent] = s.vals]
              /\ pos' = s.pos /\ fail' = s.fail
              /\ IF s.comp > Dim(t) THEN ent' = ent + 1 /\ comp' = 1 ELSE ent' = ent /\ comp' = s.comp
        /\ UNCHANGED <<prog, toks, failed0>>
Next == Step
Spec == Init /\ [][Next]_<<prog, toks, failed0, ent, comp, pos, fail, out>>

Done == ent > Len(prog)
\* values are taken in order, each token at most once, and never after a failure
InOrder == Done =>
  /\ \A i \in 1..Len(prog) : \A n \in 1..Dim(prog[i]) : out[i][n] >= 0 /\ (out[i][n] > 0 => toks[out[i][n]] = "num")
  /\ \A i, j \in 1..Len(prog) : \A n \in 1..Dim(prog[i]) : \A m \in 1..Dim(prog[j]) :
       (i < j \/ (i = j /\ n < m)) /\ out[j][m] > 0 => out[i][n] > 0 /\ out[i][n] < out[j][m]
\* a clean text is read completely and consumes exactly its numbers
Complete == Done /\ ~fail => pos = TotalDim(prog) + 1 /\ \A i \in 1..Len(prog) : \A n \in 1..Dim(prog[i]) : out[i][n] > 0
\* a failure leaves a mark in the entity being read and in all later ones
Marked == Done /\ fail => \E i \in 1..Len(prog) :
            /\ \E n \in 1..Dim(prog[i]) : out[i][n] = 0
            /\ \A j \in (i + 1)..Len(prog) : \A n \in 1..Dim(prog[j]) : out[j][n] = 0
=============================================================================
