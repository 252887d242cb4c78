-------------------------------- MODULE Ring --------------------------------
(* The coefficient ring: exact dyadic rationals (used to judge recorded     *)
(* doubles).  ring_int/Ring.tla is the same interface over TLC's integers.  *)
EXTENDS Dyadic
Zero == DZero
One == DOne
Neg(x) == DNeg(x)
Add(x, y) == DAdd(x, y)
Dot(s) == DDot(s)                \* SUM of x*y over the sequence of pairs s
=============================================================================
