-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Programs that feed results to later calls.  The machine knows only the  *)
(* types of its registers: which call can be made on which registers, and  *)
(* the type of what it leaves in the destination.  TLC simulates it, and   *)
(* drv_pipe runs the programs on real values, so that operands are values  *)
(* the library itself produced (products that cancel, rotors, roots,       *)
(* inverses of inverses, ...).  TracePipe judges every call.               *)
(*                                                                         *)
(* Half of the calls are drawn from Focus.                                 *)
(***************************************************************************)
EXTENDS Calls, TLC, FiniteSets
CONSTANTS NReg, Focus
VARIABLES ty, last

Regs == 1..NReg
NStrata == 23
None == [op |-> "none", d |-> 0, i |-> 0, j |-> 0, t |-> "double", s |-> 0]
\* calls that leave a value, and its type
Valued2 == Binary \cup {"logPlane", "sqrtPlane"}
Valued1 == Unary \cup {"cube", "magSq", "magnitude", "direction", "pairMagDir", "ampSq", "amplitude", "inverse", "exp", "log", "sqrt", "embed", "text"}
Judged1 == {"isValid"}
Judged2 == {"near", "eq"}
Can2(op, t, u) == IF op \in Binary THEN Has2(op, t, u) ELSE HasO2(op, t, u)
Can1(op, t) == CASE op \in Unary -> Has1(op, t)
                 [] op = "text" -> t \notin {"double", "ComPlex", "DirPlex"}
                 [] OTHER -> HasO1(op, t)
Res2(op, t, u) == CASE op = "mul" -> MulType(t, u) [] op \in {"add", "sub"} -> AddType(t, u) [] OTHER -> "Spinor"
Res1(op, t) == CASE op = "dual" -> DualType(t)
                 [] op \in {"magSq", "magnitude"} -> "double"
                 [] op \in {"ampSq", "amplitude"} -> "ComPlex"
                 [] op = "exp" -> IF t = "BiVector" THEN "Spinor" ELSE t
                 [] op = "embed" -> "MultiVector"
                 [] OTHER -> t
\* the calls that can be made now
Calls2(ops) == {c \in ops \X Regs \X Regs : Can2(c[1], ty[c[2]], ty[c[3]])}
Calls1(ops) == {c \in ops \X Regs : Can1(c[1], ty[c[2]])}
Make2(c, d) == /\ ty' = IF c[1] \in Judged2 THEN ty ELSE [ty EXCEPT ![d] = Res2(c[1], ty[c[2]], ty[c[3]])]
               /\ last' = [op |-> c[1], d |-> IF c[1] \in Judged2 THEN 0 ELSE d, i |-> c[2], j |-> c[3], t |-> ty'[d], s |-> 0]
Make1(c, d) == /\ ty' = IF c[1] \in Judged1 THEN ty ELSE [ty EXCEPT ![d] = Res1(c[1], ty[c[2]])]
               /\ last' = [op |-> c[1], d |-> IF c[1] \in Judged1 THEN 0 ELSE d, i |-> c[2], j |-> c[2], t |-> ty'[d], s |-> 0]
Do(ops) == LET a == Calls2(ops \cap (Valued2 \cup Judged2)) b == Calls1(ops \cap (Valued1 \cup Judged1)) d == RandomElement(Regs) IN
  \/ a # {} /\ \E c \in {RandomElement(a)} : Make2(c, d)
  \/ b # {} /\ \E c \in {RandomElement(b)} : Make1(c, d)
\* one grade of a composite, on its own
Part == \E r \in {RandomElement(Regs)} : Cardinality(GradesOf(ty[r])) > 1 /\
  \E g \in {RandomElement(GradesOf(ty[r]))}, d \in {RandomElement(Regs)} :
    LET u == CHOOSE t \in BladeTypes : GradesOf(t) = {g} IN
    ty' = [ty EXCEPT ![d] = u] /\ last' = [op |-> "part", d |-> d, i |-> r, j |-> r, t |-> u, s |-> 0]
Load == \E d \in {RandomElement(Regs)}, t \in {RandomElement(Types)} :
  ty' = [ty EXCEPT ![d] = t] /\ last' = [op |-> "load", d |-> d, i |-> 0, j |-> 0, t |-> t, s |-> RandomElement(0..NStrata - 1)]
\* a value one of the calls in Focus takes
FocusTypes == {t \in Types : (\E op \in Focus \cap (Valued1 \cup Judged1) : Can1(op, t))
                             \/ (\E op \in Focus \cap (Valued2 \cup Judged2), u \in Types : Can2(op, t, u))}
Feed == \E d \in {RandomElement(Regs)}, t \in {RandomElement(FocusTypes)} :
  ty' = [ty EXCEPT ![d] = t] /\ last' = [op |-> "load", d |-> d, i |-> 0, j |-> 0, t |-> t, s |-> RandomElement(0..NStrata - 1)]
Init == /\ ty \in {[r \in Regs |-> RandomElement(IF r + k = 0 THEN {} ELSE Types)] : k \in 1..200}
        /\ last = None
Next == \/ (\E k \in {1} : Do(Focus)) \/ (\E k \in {2} : Do(Focus)) \/ (\E k \in {3} : Do(Focus))
        \/ (\E k \in {4} : Do(Valued1 \cup Valued2)) \/ (\E k \in {5} : Do(Valued1 \cup Valued2)) \/ (\E k \in {6} : Part) \/ (\E k \in {7} : Load) \/ (\E k \in {8} : Feed)
Spec == Init /\ [][Next]_<<ty, last>>
WellTyped == \A r \in Regs : ty[r] \in Types
=============================================================================
