------------------------------ MODULE TraceMach ------------------------------
(***************************************************************************)
(* Recorded programs of calls on real objects, judged step by step as      *)
(* behaviours of the register machine of Machine.tla.  The registers of    *)
(* the specification hold what the real registers must hold; every line    *)
(* records what they do hold.                                              *)
(***************************************************************************)
EXTENDS TraceOpsDef, Json, IOUtils
VARIABLES l, reg
Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
\* (what precedes the first program, an early crash, is no behaviour)
Starts == {n \in 1..NLines : Trace[n].op = "start"} \cup (IF Trace[1].op = "start" THEN {} ELSE {0})

\* a call made before with the same operands gave the same result
SameCall(e) == IF e.w = <<>> THEN TRUE ELSE
  LET w == e.w[1] IN w.f = e.f /\ w.a = e.a /\ w.b = e.b /\ w.r = e.r /\ w.text = e.text
Silent(e) == e.io = 0 /\ e.env = 0
\* an exactly specified call
Computes(e) == e.f \in {"mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube"} =>
                 Ops([op |-> e.f, a |-> e.a, b |-> e.b, r |-> e.r[1], x |-> 1])
Step(e) ==
  \/ /\ e.op = "load"
     /\ reg' = [reg EXCEPT ![e.d] = e.v]
     /\ e.regs = reg'
  \/ /\ e.op = "call"
     /\ e.a = reg[e.i] /\ e.b = reg[e.j]           \* the operands are what the machine says
     /\ Silent(e) /\ SameCall(e) /\ Computes(e) = TRUE
     /\ reg' = IF e.d = 0 THEN reg ELSE [reg EXCEPT ![e.d] = e.r[1]]
     /\ e.kept = reg                               \* no register changed during the call
     /\ e.regs = reg'
Init == l \in Starts /\ reg = IF l = 0 THEN <<>> ELSE Trace[l].regs
More == l < NLines /\ Trace[l + 1].op # "start"
Next == \/ More /\ Step(Trace[l + 1]) /\ l' = l + 1
        \/ ~More /\ UNCHANGED <<l, reg>>
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================
