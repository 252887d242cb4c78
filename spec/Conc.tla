-------------------------------- MODULE Conc ---------------------------------
(***************************************************************************)
(* Two threads, each making a few calls.  A call is a sequence of small    *)
(* steps and the scheduler may switch threads between any two of them (at  *)
(* most MaxSwitch times).  Impl says what a call keeps outside its own     *)
(* stack:                                                                  *)
(*   "pure"     nothing (what the library must be)                         *)
(*   "scratch"  a shared work area                                         *)
(*   "cache"    a shared one-entry memory of the last operand and result   *)
(* The pure design returns F(operand) under every schedule; the other two  *)
(* do not, and TLC finds the schedules that show it.  The check drives the *)
(* real library along every complete schedule of this model, instruction   *)
(* counts standing for steps.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Impl, NStep, NCall, MaxSwitch
VARIABLES pc, n, loc, key, val, out, cur, switches, sched
vars == <<pc, n, loc, key, val, out, cur, switches, sched>>
Threads == {1, 2}
Arg(t, i) == 10 * t + i          \* every call has its own operand
F(x) == 3 * x + 1

Init == /\ pc = [t \in Threads |-> 1] /\ n = [t \in Threads |-> 1]
        /\ loc = [t \in Threads |-> 0] /\ key = 0 /\ val = 0
        /\ out = [t \in Threads |-> <<>>]
        /\ cur \in Threads /\ switches = 0 /\ sched = <<<<cur, 0>>>>
Running(t) == n[t] <= NCall
\* what a step does to the memory that outlives the call
Work(t) ==
  LET x == Arg(t, n[t]) IN
  CASE Impl = "pure" ->
         /\ loc' = [loc EXCEPT ![t] = IF pc[t] = 1 THEN x ELSE IF pc[t] = 2 THEN F(loc[t]) ELSE loc[t]]
         /\ UNCHANGED <<key, val>>
    [] Impl = "scratch" ->
         /\ val' = IF pc[t] = 1 THEN x ELSE IF pc[t] = 2 THEN F(val) ELSE val
         /\ loc' = [loc EXCEPT ![t] = val'] /\ UNCHANGED key
    [] OTHER ->
         /\ key' = IF pc[t] = 1 THEN x ELSE key
         /\ loc' = [loc EXCEPT ![t] = IF pc[t] = 1 THEN (IF key = x THEN val ELSE F(x)) ELSE IF pc[t] = NStep /\ key = x THEN val ELSE loc[t]]
         /\ val' = IF pc[t] = 2 THEN loc[t] ELSE val
Step ==
  /\ Running(cur)
  /\ Work(cur)
  /\ IF pc[cur] < NStep
     THEN pc' = [pc EXCEPT ![cur] = @ + 1] /\ UNCHANGED <<n, out>>
     ELSE /\ pc' = [pc EXCEPT ![cur] = 1]
          /\ n' = [n EXCEPT ![cur] = @ + 1]
          /\ out' = [out EXCEPT ![cur] = Append(@, loc'[cur])]
  /\ sched' = [sched EXCEPT ![Len(sched)] = <<cur, @[2] + 1>>]
  /\ UNCHANGED <<cur, switches>>
Switch ==
  LET o == 3 - cur IN
  /\ Running(o) /\ sched[Len(sched)][2] > 0
  /\ switches < MaxSwitch \/ ~Running(cur)
  /\ switches' = (IF Running(cur) THEN switches + 1 ELSE switches)
  /\ cur' = o /\ sched' = Append(sched, <<o, 0>>)
  /\ UNCHANGED <<pc, n, loc, key, val, out>>
Next == Step \/ Switch
Spec == Init /\ [][Next]_vars
Complete == \A t \in Threads : ~Running(t)
\* every call returns what it returns when made alone
Sequential == \A t \in Threads : \A i \in 1..Len(out[t]) : out[t][i] = F(Arg(t, i))
=============================================================================
