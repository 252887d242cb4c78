------------------------------ MODULE TraceIn --------------------------------
(***************************************************************************)
(* Recorded extractions of the real operator>>, judged by running the      *)
(* extraction steps of Extraction.tla over the recorded text.              *)
(***************************************************************************)
EXTENDS Extraction, Dyadic, TraceBase
RECURSIVE RunEnt(_, _, _), RunProg(_, _, _, _, _)
RunEnt(t, tk, s) == IF s.comp > Dim(t) THEN s ELSE RunEnt(t, tk, Read(t, tk, s))
RunProg(p, tk, pos, fail, acc) ==
  IF p = <<>> THEN [vals |-> acc, pos |-> pos, fail |-> fail]
  ELSE LET s == RunEnt(Head(p), tk, [comp |-> 1, pos |-> pos, fail |-> fail, vals |-> Blank(Head(p))])
       IN RunProg(Tail(p), tk, s.pos, s.fail, Append(acc, s.vals))
ValueIs(e, want, got) == IF want = 0 THEN IsNaN(got) ELSE got = e.val[want]
\* e.prog, e.toks, e.failed, e.val: the scenario; e.got, e.fail: what the code
\* stored; e.at: how many tokens had been consumed exactly (-1: in between)
Extract(e) ==
  LET o == RunProg(e.prog, e.toks, 1, e.failed = 1, <<>>) IN
  /\ Len(e.got) = Len(e.prog)
  /\ \A i \in 1..Len(e.prog) :
       /\ Len(e.got[i]) = Dim(e.prog[i])
       /\ \A n \in 1..Dim(e.prog[i]) : ValueIs(e, o.vals[i][n], e.got[i][n])
  /\ (e.fail = 1) = o.fail
  /\ o.fail \/ e.at = o.pos - 1
In(e) == e.op = "extract" /\ Extract(e)
=============================================================================
