----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation of independent calls.  The recorded lines are cut into *)
(* chunks that TLC's workers walk in parallel, one step per line.  A line  *)
(* the specification does not accept disables the step, which TLC reports  *)
(* as a deadlock (the only deadlock: a finished chunk stutters).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Accept(_)
VARIABLES l, hi
Trace == ndJsonDeserialize(IOEnv.TRACE)
ChunkSize == 100
NLines == Len(Trace)
Init == \E c \in 0..((NLines - 1) \div ChunkSize) :
          /\ l = c * ChunkSize + 1
          /\ hi = IF (c + 1) * ChunkSize < NLines THEN (c + 1) * ChunkSize ELSE NLines
Call == l <= hi /\ Accept(Trace[l]) = TRUE /\ l' = l + 1 /\ hi' = hi
Finished == l = hi + 1 /\ UNCHANGED <<l, hi>>
Next == Call \/ Finished
Spec == Init /\ [][Next]_<<l, hi>>

\* the binding probe: which of the lines (corrupted ones) are accepted
ProbeInit == l \in 1..NLines /\ hi = -1
ProbeNext == hi = -1 /\ Accept(Trace[l]) = TRUE /\ hi' = -2 /\ l' = l
ProbeSpec == ProbeInit /\ [][ProbeNext]_<<l, hi>>
=============================================================================
