-------------------------------- MODULE Ring --------------------------------
(* The coefficient ring: TLC's integers (used to check the laws of the      *)
(* algebra and to explore programs exhaustively).                           *)
EXTENDS Integers, Sequences
Zero == 0
One == 1
Neg(x) == -x
Add(x, y) == x + y
RECURSIVE DotFrom(_, _)
DotFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i][1] * s[i][2] + DotFrom(s, i + 1)
Dot(s) == DotFrom(s, 1)          \* SUM of x*y over the sequence of pairs s
=============================================================================
