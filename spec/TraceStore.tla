----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Recorded construction programs judged as behaviours of the store, with  *)
(* the recorded doubles (bit patterns) as cells.                           *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils, TLC
VARIABLES l, slot
Trace == ndJsonDeserialize(IOEnv.TRACE)
NLines == Len(Trace)
\* (what precedes the first program, an early crash, is no behaviour)
Starts == {n \in 1..NLines : Trace[n].op = "start"} \cup (IF Trace[1].op = "start" THEN {} ELSE {0})
PlusZero == "0000000000000000"

\* what the object destroyed or created by the step must be
Result(e) ==
  CASE e.a = "build" -> Obj(e.t, e.v)
    [] e.a = "promote" -> Promoted(slot[e.x])
    [] e.a = "parts" -> FromParts(slot[e.x], slot[e.y])
    [] e.a = "compose" -> FromGrades(e.t, [g \in 1..4 |-> slot[IF e.s[g] = 0 THEN 1 ELSE e.s[g]]])
    [] e.a = "select" -> Member(slot[e.x], e.y)
    [] e.a = "setmember" -> WithMember(slot[e.d], e.y, slot[e.x])
    [] e.a = "write" -> WithCell(slot[e.d], e.y, e.v[1])
    [] e.a = "copy" -> slot[e.x]
    [] e.a = "complex" -> slot[e.x]
    [] e.a = "zero" -> Obj(e.t, [n \in 1..Dim(e.t) |-> PlusZero])
    [] OTHER -> e.slots[e.d]
\* subscripts read the same cells; past the end there is NaN (a multivector has no such subscript)
Subscripts(e) == LET o == e.slots[e.d] IN
  /\ o.t = "double" \/ e.subs = o.c
  /\ o.t # "MultiVector" \/ e.wsubs = o.c         \* the writable subscript reads the same
  /\ \A n \in 1..Len(e.past) : e.past[n] = 1
  /\ o.t \in {"double", "MultiVector"} \/ Len(e.past) > 0
Step(e) ==
  /\ e.op = "step"
  /\ slot' = [slot EXCEPT ![e.d] = Result(e)]
  /\ e.slots = slot'
  /\ (e.a = "null" => e.slots[e.d].t = e.t /\ e.nans = [n \in 1..Dim(e.t) |-> 1])
  /\ (e.a = "complex" => e.std = slot[e.x].c)
  /\ Subscripts(e)

Init == /\ l \in Starts
        /\ slot = IF l = 0 THEN <<>> ELSE Trace[l].slots
More == l < NLines /\ Trace[l + 1].op # "start"
Next == \/ More /\ Step(Trace[l + 1]) /\ l' = l + 1
        \/ ~More /\ UNCHANGED <<l, slot>>
Spec == Init /\ [][Next]_<<l, slot>>
=============================================================================
