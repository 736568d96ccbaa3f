-------------------------------- MODULE ZNum --------------------------------
(***************************************************************************)
(* What a JSON number text denotes: an exact decimal, kept as              *)
(* [neg, ds, e]: sign, digit sequence without leading or trailing zeros    *)
(* (<<>> for zero), and the power of ten of the last digit.  Machine       *)
(* integers are digit sequences too (TLC's integers are too small).        *)
(***************************************************************************)
EXTENDS JsonText

RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
RECURSIVE StripTrail(_, _)
StripTrail(d, e) == IF d # <<>> /\ d[Len(d)] = 0 THEN StripTrail(SubSeq(d, 1, Len(d) - 1), e + 1)
                    ELSE [ds |-> d, e |-> IF d = <<>> THEN 0 ELSE e]
Norm(neg, d, e) == LET t == StripTrail(StripLead(d), e)
                   IN [neg |-> neg /\ t.ds # <<>>, ds |-> t.ds, e |-> t.e]

\* position helpers on a number text
Val(b) == b - 48
RECURSIVE DigitsFrom(_, _)
DigitsFrom(s, i) == IF i <= Len(s) /\ s[i] \in Digit THEN <<Val(s[i])>> \o DigitsFrom(s, i + 1) ELSE <<>>
RECURSIVE ToInt(_, _)
ToInt(d, i) == IF i = 0 THEN 0 ELSE ToInt(d, i - 1) * 10 + d[i]
\* the decimal denoted by a number text (exponents of at most 8 digits)
Denotes(s) ==
  LET neg == s[1] = Minus
      i0 == IF neg THEN 2 ELSE 1
      ip == DigitsFrom(s, i0)
      i1 == i0 + Len(ip)
      hasf == i1 <= Len(s) /\ s[i1] = Dot
      fp == IF hasf THEN DigitsFrom(s, i1 + 1) ELSE <<>>
      i2 == IF hasf THEN i1 + 1 + Len(fp) ELSE i1
      hase == i2 <= Len(s) /\ s[i2] \in ExpE
      es == hase /\ s[i2 + 1] \in {Plus, Minus}
      xd == IF hase THEN DigitsFrom(s, IF es THEN i2 + 2 ELSE i2 + 1) ELSE <<>>
      x == (IF hase /\ s[i2 + 1] = Minus THEN -1 ELSE 1) * ToInt(xd, Len(xd))
  IN Norm(neg, ip \o fp, x - Len(fp))

\* integers
IntSpelling(s) == NumText(s) /\ \A i \in 1..Len(s) : s[i] \in Digit \cup {Minus}
Magnitude(n) == n.ds \o [i \in 1..n.e |-> 0]          \* of an integral decimal
IsInteger(n) == n.e >= 0
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
MagLe(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLe(a, b, 1)
\* ranges given by the magnitudes of the least and the greatest value
Max32 == <<2,1,4,7,4,8,3,6,4,7>>
Min32 == <<2,1,4,7,4,8,3,6,4,8>>
Max64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
Min64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
InRange(n, lo, hi) == IsInteger(n) /\ MagLe(Magnitude(n), IF n.neg THEN lo ELSE hi)

\* canonical spelling of an integer
Spell(neg, mag) == (IF neg /\ mag # <<>> THEN <<Minus>> ELSE <<>>)
                   \o (IF mag = <<>> THEN <<48>> ELSE [i \in 1..Len(mag) |-> mag[i] + 48])
\* digit arithmetic for neighbours
RECURSIVE IncD(_)
IncD(d) == IF d = <<>> THEN <<1>>
           ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
           ELSE Append(IncD(SubSeq(d, 1, Len(d) - 1)), 0)
RECURSIVE DecD(_)
DecD(d) == StripLead(IF d[Len(d)] > 0 THEN [d EXCEPT ![Len(d)] = @ - 1]
                     ELSE Append(DecD(SubSeq(d, 1, Len(d) - 1)), 9))
RECURSIVE DoubleD(_, _, _)
DoubleD(d, i, carry) ==     \* 2*d, from the last digit
  IF i = 0 THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET v == 2 * d[i] + carry IN Append(DoubleD(d, i - 1, v \div 10), v % 10)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE LET d == Pow2(k - 1) IN DoubleD(d, Len(d), 0)
Pow10(k) == <<1>> \o [i \in 1..k |-> 0]
Around(m) == {m, IncD(m), DecD(m)}
Mags == {<<>>} \cup UNION {Around(Pow2(k)) : k \in 0..63} \cup UNION {Around(Pow10(k)) : k \in 0..18}
        \cup Around(Max32) \cup Around(Max64) \cup {Min32, Min64}
\* the integers used to drive the setters, by range
Ints(lo, hi) == {[neg |-> sg, m |-> m] : sg \in BOOLEAN, m \in Mags} 
Fits(x, lo, hi) == MagLe(x.m, IF x.neg THEN lo ELSE hi)

(* ------------------------------ laws ---------------------------------- *)
SpellLaw == \A x \in Ints(Min64, Max64) :
              LET s == Spell(x.neg, x.m)
              IN /\ IntSpelling(s)
                 /\ Magnitude(Denotes(s)) = x.m
                 /\ Denotes(s).neg = (x.neg /\ x.m # <<>>)
PowLaw == Pow2(31) = Min32 /\ DecD(Pow2(31)) = Max32 /\ Pow2(63) = Min64 /\ IncD(Max64) = Min64
\* different spellings of the same number denote the same decimal
AltLaw == LET t(str) == Denotes(str) IN
  /\ t(<<49,48>>) = t(<<49,101,49>>)                       \* 10   1e1
  /\ t(<<49,48>>) = t(<<49,46,48,69,43,48,49>>)            \* 1.0E+01
  /\ t(<<49,48>>) = t(<<49,48,48,101,45,49>>)              \* 100e-1
  /\ t(<<45,48>>) = t(<<48,46,48,48>>)                     \* -0 = 0.00 as decimals
  /\ t(<<49,48>>) # t(<<49>>)
=============================================================================
