------------------------------- MODULE Blades -------------------------------
(***************************************************************************)
(* The basis of the geometric algebra of 3D space, built from its axioms.  *)
(*                                                                         *)
(* A basis blade is a word over the generators 1,2,3.  Two words are       *)
(* multiplied by concatenation and then reduced with  ei ei = 1  and       *)
(* ei ej = - ej ei.  Everything the specification knows about products,    *)
(* involutions and duals comes from this reduction; there is no            *)
(* multiplication table to get wrong.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* canonical order of the library: scalar; e1,e2,e3; e23,e31,e12; e123
Word == << <<>>, <<1>>, <<2>>, <<3>>, <<2, 3>>, <<3, 1>>, <<1, 2>>, <<1, 2, 3>> >>
K == 1..8

\* reduce a word to <<sign, sorted word without repetitions>>
RECURSIVE Norm(_, _)
Norm(sgn, w) ==
  IF \E i \in 1..(Len(w) - 1) : w[i] = w[i + 1]
  THEN LET i == CHOOSE i \in 1..(Len(w) - 1) : w[i] = w[i + 1]
       IN Norm(sgn, SubSeq(w, 1, i - 1) \o SubSeq(w, i + 2, Len(w)))          \* ei ei = 1
  ELSE IF \E i \in 1..(Len(w) - 1) : w[i] > w[i + 1]
  THEN LET i == CHOOSE i \in 1..(Len(w) - 1) : w[i] > w[i + 1]
       IN Norm(-sgn, [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]])              \* ei ej = - ej ei
  ELSE <<sgn, w>>

\* blade words of the canonical order, reduced: e31 is - e13
Canon == [k \in K |-> Norm(1, Word[k])]

\* product of basis blades i and j: <<sign, k>> with  b_i b_j = sign b_k
Mul1(i, j) ==
  LET n == Norm(1, Word[i] \o Word[j])
      k == CHOOSE k \in K : Canon[k][2] = n[2]
  IN <<n[1] * Canon[k][1], k>>
MulTab == [i \in K |-> [j \in K |-> Mul1(i, j)]]

\* the factor j and sign with which b_i contributes to component k of a product
Par == [k \in K |-> [i \in K |-> CHOOSE j \in K : MulTab[i][j][2] = k]]
Sig == [k \in K |-> [i \in K |-> MulTab[i][Par[k][i]][1]]]

GradeOf(k) == Len(Word[k])
\* the reversed word, as a sign: product of the generators in the opposite order
RevSign(k) == LET r == Norm(1, [m \in 1..Len(Word[k]) |-> Word[k][Len(Word[k]) + 1 - m]])
              IN r[1] * Canon[k][1]
\* every generator negated
OddSign(k) == IF Len(Word[k]) % 2 = 1 THEN -1 ELSE 1
\* both (Clifford conjugation)
DirSign(k) == RevSign(k) * OddSign(k)
Pseudo == 8
\* the generator permutation group is not needed: e1, e2, e3 are only ordered by Word
=============================================================================
