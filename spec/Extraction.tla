----------------------------- MODULE Extraction ------------------------------
(* One component read of operator>>, shared by the model and the trace judge *)
EXTENDS GTypes

\* the grades of a type as ranges of component positions
GradeStart(t, n) == CHOOSE m \in 1..n : /\ GradeOf(Layout(t)[m]) = GradeOf(Layout(t)[n])
                                        /\ \A i \in 1..(m - 1) : GradeOf(Layout(t)[i]) # GradeOf(Layout(t)[m])
GradeEnd(t, n) == CHOOSE m \in n..Dim(t) : /\ GradeOf(Layout(t)[m]) = GradeOf(Layout(t)[n])
                                           /\ \A i \in (m + 1)..Dim(t) : GradeOf(Layout(t)[i]) # GradeOf(Layout(t)[m])

\* one component read: the state <<comp, pos, fail, vals>> of one entity extraction
Read(t, tk, s) ==
  LET n == s.comp IN
  IF ~s.fail /\ s.pos <= Len(tk) /\ tk[s.pos] = "num"
  THEN [comp |-> n + 1, pos |-> s.pos + 1, fail |-> FALSE, vals |-> [s.vals EXCEPT ![n] = s.pos]]
  ELSE \* failure: the whole grade is lost, and the stream stays failed
       [comp |-> GradeEnd(t, n) + 1, pos |-> s.pos, fail |-> TRUE,
        vals |-> [i \in 1..Dim(t) |-> IF i >= GradeStart(t, n) /\ i <= GradeEnd(t, n) THEN 0 ELSE s.vals[i]]]
Blank(t) == [i \in 1..Dim(t) |-> -1]
=============================================================================
