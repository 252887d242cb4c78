------------------------------ MODULE TraceRace ------------------------------
(* A run of many threads under the thread sanitizer: the only event allowed *)
(* is its clean end; calls share no memory that any of them writes.         *)
EXTENDS Integers, Sequences, TraceBase
Race(e) == e.op = "clean"
=============================================================================
