------------------------------ MODULE Footprint ------------------------------
(***************************************************************************)
(* What a call may touch.  Memory is a row of cells; every object owns a   *)
(* few neighbouring ones, with an unowned cell after each object.  A       *)
(* program makes objects, calls the library on them, reads subscripts      *)
(* (also past the end), keeps what a call on a temporary returned, and     *)
(* lets objects die.  Impl says how the library goes about it:             *)
(*   "sound"     reads operands within their bounds, returns whole values  *)
(*   "overrun"   a subscript is not checked against the size               *)
(*   "partial"   a result leaves its last cell unwritten for some operand  *)
(*   "dangling"  a result is a reference into the operand                  *)
(* Every read of a cell that no live object owns, or that was never        *)
(* written, is a fault.  The sound design has none; each of the others is  *)
(* refuted by some program, which is the family of programs the check      *)
(* executes under monitors that see exactly these reads.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Impl, MaxLen
Objs == 1..3
Size(o) == 1 + (o % 2)
Base(o) == 3 * (o - 1) + 1
Cells == 1..9
Own(o) == Base(o)..(Base(o) + Size(o) - 1)
VARIABLES live, written, at, fault, prog
vars == <<live, written, at, fault, prog>>
\* at[o]: where reads of o really go (its own cells, unless it is a reference)
Init == /\ live = {} /\ written = {} /\ fault = FALSE /\ prog = <<>>
        /\ at = [o \in Objs |-> Base(o)]
Owned(L) == UNION {Own(o) : o \in L}
Bad(cs) == \E c \in cs : c \notin Owned(live) \/ c \notin written
ReadsOf(o) == {at[o] + i : i \in 0..(Size(o) - 1)}
Log(a) == Len(prog) < MaxLen /\ prog' = Append(prog, a)
Make(o) == /\ o \notin live /\ Log(<<"make", o>>)
           /\ live' = live \cup {o} /\ written' = written \cup Own(o)
           /\ at' = [at EXCEPT ![o] = Base(o)] /\ UNCHANGED fault
\* d = f(x); the operand's branch (odd or even program length) selects the code path of "partial"
Call(d, x) ==
  /\ x \in live /\ d \notin live /\ d # x /\ Log(<<"call", d, x>>)
  /\ fault' = (fault \/ Bad(ReadsOf(x)))
  /\ live' = live \cup {d}
  /\ LET skip == IF Impl = "partial" /\ Len(prog) % 2 = 1 THEN {Base(d) + Size(d) - 1} ELSE {} IN
     written' = (written \ Own(d)) \cup (Own(d) \ skip)
  /\ at' = [at EXCEPT ![d] = IF Impl = "dangling" /\ Size(x) >= Size(d) THEN at[x] ELSE Base(d)]
Subscript(x, i) ==
  /\ x \in live /\ Log(<<"sub", x, i>>)
  /\ fault' = (fault \/ ((i < Size(x) \/ Impl = "overrun") /\ Bad({at[x] + i})))
  /\ UNCHANGED <<live, written, at>>
Use(x) == /\ x \in live /\ Log(<<"use", x>>)
          /\ fault' = (fault \/ Bad(ReadsOf(x))) /\ UNCHANGED <<live, written, at>>
Drop(x) == /\ x \in live /\ Log(<<"drop", x>>)
           /\ live' = live \ {x} /\ written' = written \ Own(x) /\ UNCHANGED <<at, fault>>
Next == \E x \in Objs : \/ Make(x) \/ Use(x) \/ Drop(x)
                        \/ \E i \in 0..2 : Subscript(x, i)
                        \/ \E d \in Objs : Call(d, x)
Spec == Init /\ [][Next]_vars
NoFault == ~fault
=============================================================================
