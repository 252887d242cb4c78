------------------------------ MODULE TraceHist ------------------------------
(***************************************************************************)
(* Recorded calls out of long histories.  Every line carries a witness:    *)
(* the same call as it was made elsewhere (earlier in this history, in     *)
(* another order, in a fresh process, in another thread, or alone).  A     *)
(* call is a function of its operand values: same call, same result, bit   *)
(* for bit, the operands kept, nothing written, no environment changed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TraceBase
Hist(e) ==
  /\ e.op = "hist"
  /\ e.w.f = e.f /\ e.w.a = e.a /\ e.w.b = e.b
  /\ e.w.r = e.r /\ e.w.text = e.text
  /\ e.a2 = e.a /\ e.b2 = e.b
  /\ e.io = 0 /\ e.env = 0
=============================================================================
