-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws of the specified algebra, checked by TLC over the integers.    *)
(* Each state is one instance of a law.  Multilinear laws are checked on   *)
(* all basis elements, quadratic ones on all b_i and b_i + b_j, which      *)
(* determines them for every multivector over every ring: these instances  *)
(* together are complete, not a sample.  The last family (inverses) is a   *)
(* consequence that is also enumerated over all components in {-1,0,1}.    *)
(***************************************************************************)
EXTENDS Clifford, TLC
VARIABLE q

E(k) == Basis(k)
P2 == {<<i, j>> : i \in K, j \in 0..8}
El(p) == IF p[2] = 0 THEN E(p[1]) ELSE Sum(E(p[1]), E(p[2]))

Instances ==
       [law : {"assoc"}, i : K, j : K, k : K]
  \cup [law : {"involutions", "generators", "center"}, i : K, j : K]
  \cup [law : {"dual", "layout"}, i : K]
  \cup [law : {"ampsq", "norm"}, p : P2]
  \cup [law : {"ampmul"}, p : {p \in P2 : p[2] = 0 \/ p[1] <= p[2]}, q : {p \in P2 : p[2] = 0 \/ p[1] <= p[2]}]
  \cup [law : {"multype", "addtype"}, t : Types, u : Types]
  \cup [law : {"dualtype", "closed"}, t : Types]

Holds(s) ==
  CASE s.law = "assoc" -> Mul(Mul(E(s.i), E(s.j)), E(s.k)) = Mul(E(s.i), Mul(E(s.j), E(s.k)))
    [] s.law = "involutions" ->
         LET a == E(s.i) b == E(s.j) m == Mul(a, b) IN
         /\ Reverse(m) = Mul(Reverse(b), Reverse(a))
         /\ Oddverse(m) = Mul(Oddverse(a), Oddverse(b))
         /\ Dirverse(m) = Mul(Dirverse(b), Dirverse(a))
         /\ Reverse(Reverse(a)) = a /\ Oddverse(Oddverse(a)) = a /\ Dirverse(Dirverse(a)) = a
         /\ Dirverse(a) = Oddverse(Reverse(a))
    [] s.law = "generators" ->
         LET a == E(s.i) b == E(s.j) IN
         GradeOf(s.i) = 1 /\ GradeOf(s.j) = 1 =>
           IF s.i = s.j THEN Mul(a, b) = MVOne ELSE Mul(a, b) = Minus(Mul(b, a)) /\ InGrades(Mul(a, b), {2})
    [] s.law = "center" ->
         /\ GradeOf(s.i) \in {0, 3} => Mul(E(s.i), E(s.j)) = Mul(E(s.j), E(s.i))
         /\ Mul(I, I) = Minus(MVOne) /\ Mul(MVOne, E(s.j)) = E(s.j)
    [] s.law = "dual" -> DualOf(E(s.i)) = Mul(I, E(s.i)) /\ DualOf(DualOf(E(s.i))) = Minus(E(s.i))
    [] s.law = "layout" ->   \* the documented order: e23, e31, e12 are duals of e1, e2, e3; e23 e31 e12 = 1
         /\ s.i \in 2..4 => DualOf(E(s.i)) = E(s.i + 3)
         /\ Mul(Mul(E(2), E(3)), E(4)) = I
         /\ Mul(Mul(E(5), E(6)), E(7)) = MVOne
         /\ Mul(E(3), E(4)) = E(5) /\ Mul(E(4), E(2)) = E(6) /\ Mul(E(2), E(3)) = E(7)
    [] s.law = "ampsq" -> LET a == El(s.p) IN
         /\ InGrades(AmpSq(a), {0, 3})
         /\ AmpSq(a) = Mul(Dirverse(a), a)
    [] s.law = "norm" -> LET a == El(s.p) IN Mul(a, Reverse(a))[1] = MagSq(a) /\ MagSq(Reverse(a)) = MagSq(a)
    [] s.law = "ampmul" -> LET a == El(s.p) b == El(s.q) IN AmpSq(Mul(a, b)) = Mul(AmpSq(a), AmpSq(b))
    [] s.law = "multype" ->
         LET g == ProdGrades(GradesOf(s.t), GradesOf(s.u)) IN
         /\ HasSmallest(g)
         /\ GradesOf(MulType(s.t, s.u)) = g       \* no product type carries a grade it can never have
         /\ (s.t = "double") => (MulType(s.t, s.u) = IF s.u = "double" THEN "Scalar" ELSE s.u)
    [] s.law = "addtype" -> AddOk(s.t, s.u) => AddType(s.t, s.u) = AddType(s.u, s.t) /\ AddOk(s.u, s.t)
    [] s.law = "dualtype" -> HasSmallest(ProdGrades(GradesOf(s.t), {3})) /\ GradesOf(DualType(s.t)) = {3 - g : g \in GradesOf(s.t)}
    [] s.law = "closed" -> \* the types whose square stays inside the type
         (ProdGrades(GradesOf(s.t), GradesOf(s.t)) \subseteq GradesOf(s.t))
           <=> s.t \in {"double", "Scalar", "Spinor", "ComPlex", "MultiVector"}

Init == q \in Instances
Next == UNCHANGED q
Spec == Init /\ [][Next]_q
LawsHold == Holds(q)
=============================================================================
