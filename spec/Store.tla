-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Objects being built, promoted, taken apart and written, as a machine.   *)
(* Cells hold tokens; the replay puts a double of any kind (signed zeros,  *)
(* infinities, NaN, subnormals, extremes) in place of every token, so each *)
(* cell's journey is visible.  TLC simulates the machine and drv_store     *)
(* performs the same steps on real objects.                                *)
(***************************************************************************)
EXTENDS StoreOps, TLC
CONSTANTS NSlot, NTok
VARIABLES slot, last

Slots == 1..NSlot
Tok == 1..NTok
Fresh(t) == Obj(t, [n \in 1..Dim(t) |-> RandomElement(Tok)])
\* not a constant expression: TLC must draw anew for every use
Draw(t, k) == IF k > 0 THEN Fresh(t) ELSE Obj(t, <<>>)
Blank4 == <<0, 0, 0, 0>>
Act(a, d, x, y, t, v, s) == [a |-> a, d |-> d, x |-> x, y |-> y, t |-> t, v |-> v, s |-> s]

Init == /\ slot \in {[r \in Slots |-> Draw(RandomElement(Types \ {IF k > 0 THEN "none" ELSE "x"}), k)] : k \in 1..200}
        /\ last = Act("start", 0, 0, 0, "-", <<>>, Blank4)
Put(d, o) == slot' = [slot EXCEPT ![d] = o]
Build == \E d \in Slots : \E t \in Types :
  LET o == Draw(t, d) IN Put(d, o) /\ last' = Act("build", d, 0, 0, t, o.c, Blank4)
Promote == \E d, i \in Slots :
  Put(d, Promoted(slot[i])) /\ last' = Act("promote", d, i, 0, slot[i].t, <<>>, Blank4)
Parts == \E d, i, j \in Slots :
  /\ slot[i].t = "ComPlex" /\ slot[j].t = "DirPlex"
  /\ Put(d, FromParts(slot[i], slot[j])) /\ last' = Act("parts", d, i, j, "-", <<>>, Blank4)
\* a composite from grades found in any slots
Compose == \E d \in Slots, t \in {"Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector"} :
  LET For(g) == {r \in Slots : HasGrade(slot[r].t, g) /\ slot[r].t # "double"}
  IN /\ \A g \in GradesOf(t) : For(g) # {}
     /\ LET s == [g \in 1..4 |-> IF HasGrade(t, g - 1) THEN RandomElement(For(g - 1)) ELSE 0]
            src == [g \in 1..4 |-> IF s[g] = 0 THEN slot[1] ELSE slot[s[g]]]
        IN Put(d, FromGrades(t, src)) /\ last' = Act("compose", d, 0, 0, t, <<>>, s)
Select == \E d, i \in Slots, g \in 0..3 :
  /\ HasGrade(slot[i].t, g) /\ slot[i].t # "double"
  /\ Put(d, Member(slot[i], g)) /\ last' = Act("select", d, i, g, "-", <<>>, Blank4)
SetMember == \E d, i \in Slots, g \in 0..3 :
  /\ HasGrade(slot[i].t, g) /\ HasGrade(slot[d].t, g) /\ slot[i].t # "double"
  /\ slot[d].t \notin BladeTypes \cup {"double"}
  /\ Put(d, WithMember(slot[d], g, slot[i])) /\ last' = Act("setmember", d, i, g, "-", <<>>, Blank4)
Write == \E d \in Slots, n \in 1..8 :
  /\ slot[d].t = "MultiVector"
  /\ LET x == RandomElement(Tok \ {slot[d].c[n]}) IN
     Put(d, WithCell(slot[d], n, x)) /\ last' = Act("write", d, 0, n, "-", <<x>>, Blank4)
Copy == \E d, i \in Slots : Put(d, slot[i]) /\ last' = Act("copy", d, i, 0, "-", <<>>, Blank4)
Complex == \E d, i \in Slots :
  /\ slot[i].t = "ComPlex"
  /\ Put(d, slot[i]) /\ last' = Act("complex", d, i, 0, "-", <<>>, Blank4)
Constant == \E d \in Slots, t \in Types, f \in {"zero", "null"} :
  Put(d, Obj(t, [n \in 1..Dim(t) |-> IF f = "zero" THEN 0 ELSE -1])) /\ last' = Act(f, d, 0, 0, t, <<>>, Blank4)
Next == Build \/ Promote \/ Parts \/ Compose \/ Select \/ SetMember \/ Write \/ Copy \/ Complex \/ Constant
Spec == Init /\ [][Next]_<<slot, last>>

Typed == \A r \in Slots : slot[r].t \in Types /\ Len(slot[r].c) = Dim(slot[r].t)
\* taking an object apart and putting it together again gives it back
Whole == \A r \in Slots : LET o == slot[r] IN
  /\ Narrow(o.t, Row(o)) = o
  /\ Narrow(o.t, Row(Promoted(o))) = o
  /\ (o.t \in {"Spinor", "ImSpin", "ComPlex", "DirPlex", "MultiVector"} =>
       FromGrades(o.t, [g \in 1..4 |-> IF HasGrade(o.t, g - 1) THEN Member(o, g - 1) ELSE o]) = o)
  /\ (o.t = "MultiVector" => FromParts(Narrow("ComPlex", Row(o)), Narrow("DirPlex", Row(o))) = o)
Frame == [][\A r \in Slots : r = last'.d \/ slot'[r] = slot[r]]_<<slot, last>>
=============================================================================
