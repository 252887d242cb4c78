------------------------------ MODULE RotGroup -------------------------------
(* The orientations alone: exactly the 24 signed permutations of the axes.   *)
EXTENDS Rotations
gInit == path = <<>> /\ S = MVOne /\ axes = Start
gNext == \E t \in Turns : path' = path /\ S' = S /\ axes' = TurnAxes(t, axes)
gSpec == gInit /\ [][gNext]_<<path, S, axes>>
\* the sense of a turn: plane e_ab takes a to b
ASSUME TurnAxes(<<7, 1>>, Start)[1] = Basis(3)
ASSUME TurnAxes(<<5, 1>>, Start)[2] = Basis(4)
ASSUME TurnAxes(<<6, 1>>, Start)[3] = Basis(2)
ASSUME \A t \in Turns : TurnAxes(<<t[1], -t[2]>>, TurnAxes(t, Start)) = Start
\* every orientation is one of the proper signed permutations, and (by the state count) all are reached
SignedPerm == \A i \in 1..3 : \E k \in 2..4, s \in {-1, 1} : axes[i] = Map8(LAMBDA j : IF j = k THEN s ELSE 0)
=============================================================================
