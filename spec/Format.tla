------------------------------- MODULE Format --------------------------------
(***************************************************************************)
(* Decimal text of entities.  A text arrives as its words (sequences of    *)
(* character codes) with the number of blanks in front of each, and the    *)
(* number of blanks after the last.  Words are parsed here, and compared   *)
(* with the exact value of the recorded component.                         *)
(***************************************************************************)
EXTENDS Engabra

RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN DOne ELSE IF k = 1 THEN DInt(10)
            ELSE LET h == Pow10(k \div 2) s == DMul(h, h) IN IF k % 2 = 1 THEN DMul(s, DInt(10)) ELSE s
Pow10Tab == [k \in 0..330 |-> Pow10(k)]
P10(k) == IF k <= 330 THEN Pow10Tab[k] ELSE Pow10(k)

Digit(c) == c >= 48 /\ c <= 57
AllDigits(w) == \A i \in 1..Len(w) : Digit(w[i])
RECURSIVE Chunk(_, _, _)
Chunk(w, lo, hi) == IF hi < lo THEN 0 ELSE 10 * Chunk(w, lo, hi - 1) + (w[hi] - 48)
RECURSIVE DigitsVal(_, _)
DigitsVal(w, hi) == IF hi <= 8 THEN DInt(Chunk(w, 1, hi))
                    ELSE DAdd(DMul(DigitsVal(w, hi - 8), P10(8)), DInt(Chunk(w, hi - 7, hi)))
First(w, c) == IF \E i \in 1..Len(w) : w[i] = c THEN CHOOSE i \in 1..Len(w) : w[i] = c /\ \A j \in 1..(i - 1) : w[j] # c ELSE 0
Piece(w, lo, hi) == IF hi < lo THEN <<>> ELSE SubSeq(w, lo, hi)

\* the parts of a word: sign, digits before and after the point, exponent part
Parse(w0) ==
  LET neg == Len(w0) > 0 /\ w0[1] = 45
      w == IF neg THEN Tail(w0) ELSE w0
      e == First(w, 101)
      m == IF e = 0 THEN w ELSE Piece(w, 1, e - 1)
      p == First(m, 46)
  IN [neg |-> neg, exp |-> IF e = 0 THEN <<>> ELSE Piece(w, e + 1, Len(w)), hasExp |-> e # 0, hasPoint |-> p # 0,
      int |-> IF p = 0 THEN m ELSE Piece(m, 1, p - 1), frac |-> IF p = 0 THEN <<>> ELSE Piece(m, p + 1, Len(m))]
\* the sign shown is the sign of the component (either is accepted on a zero shown for a zero)
SignShown(neg, x) == (neg /\ (Sgn(x) = -1 \/ x = NegZero)) \/ (~neg /\ (Sgn(x) = 1 \/ IsZero(x)))
Abs(x) == IF IsZero(x) THEN DZero ELSE DAbs(x)
HalfOff(d, v, unit) == DLeq(DScale(DAbs(DSub(d, v)), 1), unit)      \* |d - v| <= unit / 2

\* fixed point with exactly n decimals, correctly rounded
FixedWord(w, x, n) ==
  LET p == Parse(w) all == p.int \o p.frac
      d == DigitsVal(all, Len(all)) IN
  /\ ~p.hasExp /\ p.hasPoint = (n > 0)
  /\ Len(p.int) >= 1 /\ AllDigits(all) /\ Len(p.frac) = n
  /\ Len(p.int) = 1 \/ p.int[1] # 48
  /\ SignShown(p.neg, x) \/ (~p.neg /\ d = DZero)
  /\ HalfOff(d, DMul(Abs(x), P10(n)), DOne)
\* scientific notation with n decimals, correctly rounded
SciWord(w, x, n) ==
  LET p == Parse(w) all == p.int \o p.frac
      d == DigitsVal(all, Len(all)) IN
  /\ p.hasExp /\ p.hasPoint = (n > 0)
  /\ Len(p.int) = 1 /\ Len(p.frac) = n /\ AllDigits(all)
  /\ Len(p.exp) \in 3..4 /\ p.exp[1] \in {43, 45} /\ AllDigits(Tail(p.exp))
  /\ SignShown(p.neg, x)
  /\ IF IsZero(x) THEN d = DZero /\ Chunk(Tail(p.exp), 1, Len(p.exp) - 1) = 0
     ELSE LET E == (IF p.exp[1] = 45 THEN -1 ELSE 1) * Chunk(Tail(p.exp), 1, Len(p.exp) - 1)
              k == E - n     \* the value shown is d * 10^k
          IN /\ p.int[1] # 48
             /\ IF k >= 0 THEN HalfOff(DMul(d, P10(k)), Abs(x), P10(k))
                ELSE HalfOff(d, DMul(Abs(x), P10(-k)), DOne)

\* does component n of a type start a grade
StartsGrade(t, n) == n = 1 \/ GradeOf(Layout(t)[n - 1]) # GradeOf(Layout(t)[n])
MaxI(a, b) == IF a < b THEN b ELSE a
\* right aligned in a field of `width`, one blank in front; wider gaps between grades are allowed
Field(blanks, len, width, loose) ==
  LET b == 1 + MaxI(0, width - len) IN IF loose THEN blanks >= b ELSE blanks = b

FixedText(a, words, blanks, after, before, digits) ==
  /\ Len(words) = Dim(a.t) /\ Len(blanks) = Len(words) /\ after = 0
  /\ \A n \in 1..Dim(a.t) :
       /\ FixedWord(words[n], a.c[n], digits)
       /\ Field(blanks[n], Len(words[n]), before + digits + 2, n > 1 /\ StartsGrade(a.t, n))
SciText(a, words, blanks, after, digits) ==
  /\ Len(words) = Dim(a.t) /\ Len(blanks) = Len(words) /\ after = 0
  /\ \A n \in 1..Dim(a.t) : /\ SciWord(words[n], a.c[n], digits)
                            /\ n = 1 \/ blanks[n] >= 1
\* reading the default notation back
BackOk(x, y) == IF IsZero(x) THEN IsZero(y) ELSE IsFin(y) /\ Sgn(y) = Sgn(x) /\ DLeq(DMul(DAbs(DSub(x, y)), DMul(P10(15), DOne)), DAbs(x))
=============================================================================
