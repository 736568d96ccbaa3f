---------------------------- MODULE ExportTables ----------------------------
(***************************************************************************)
(* Writes the finite tables that determine JsonText, ZStr and ZNum, for    *)
(* the C++ replayer: the transition table of the pushdown transducer by    *)
(* (mode, q, top of stack, byte), decoding tables, and integer boundaries. *)
(***************************************************************************)
EXTENDS ZStr, ZNum, TLC

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN " " \o x \o SetSeq(S \ {x})

\* one entry: target mode, q, stack operation ('=' same, 'A'/'O' push, '-' pop), '!' if the byte is emitted
Stack(top) == IF top = "-" THEN <<>> ELSE <<top>>
Entry(m, q, top, b) ==
  LET c == [m |-> m, q |-> q, st |-> Stack(top)]
      n == Step(c, b)
  IN IF n.m = "X" THEN "X"
     ELSE n.m \o "/" \o n.q \o
          (IF Len(n.st) = Len(c.st) THEN "=" ELSE IF Len(n.st) < Len(c.st) THEN "-"
           ELSE IF Top(n.st) = "a" THEN "A" ELSE "O")
          \o (IF Emits(c, b) THEN "!" ELSE "")
RECURSIVE Row(_, _, _, _)
Row(m, q, top, b) == IF b > 255 THEN "" ELSE Entry(m, q, top, b) \o " " \o Row(m, q, top, b + 1)
\* the table is enough: Step depends on the stack only through its top
TopOnly == \A m \in Modes, q \in {"k", "v"}, t \in {"a", "o"}, u \in {"a", "o"}, b \in Byte :
             LET c1 == [m |-> m, q |-> q, st |-> <<t>>]
                 c2 == [m |-> m, q |-> q, st |-> <<u, t>>]
                 n1 == Step(c1, b)
                 n2 == Step(c2, b)
             IN n1.m = n2.m /\ n1.q = n2.q /\ (n1.m # "X" => n2.st = <<u>> \o n1.st)
ASSUME TopOnly
ASSUME \A m \in Modes \ {"X"}, q \in {"k", "v"}, t \in {"-", "a", "o"} :
         PrintT("#PDA " \o m \o " " \o q \o " " \o t \o " " \o Row(m, q, t, 0))
ASSUME PrintT("#ACC" \o SetSeq({"e"} \cup NumEnd)) /\ PrintT("#STR" \o SetSeq(StrModes))
       /\ PrintT("#NUM" \o SetSeq(NumModes)) /\ PrintT("#NUMEND" \o SetSeq(NumEnd)) /\ PrintT("#LIT" \o SetSeq(LitModes)) /\ PrintT("#WS" \o SetSeq(WsModes))

RECURSIVE Num(_, _)
Num(s, i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o (IF i < Len(s) THEN "," ELSE "") \o Num(s, i + 1)
RECURSIVE URow(_, _)
URow(u, e) == IF u > e THEN "" ELSE (IF IsSur(u) THEN "-" ELSE Num(Utf8(u), 1)) \o " " \o URow(u + 1, e)
ASSUME \A k \in 0..1023 : PrintT("#U8 " \o ToString(k * 64) \o " " \o URow(k * 64, k * 64 + 63))
RECURSIVE HRow(_, _)
HRow(h, e) == IF h > e THEN "" ELSE Num(HighPart(h), 1) \o " " \o HRow(h + 1, e)
RECURSIVE LRow(_, _)
LRow(h, e) == IF h > e THEN "" ELSE Num(LowPart(h), 1) \o " " \o LRow(h + 1, e)
ASSUME \A k \in 0..15 : PrintT("#HI " \o ToString(k * 64) \o " " \o HRow(55296 + k * 64, 55296 + k * 64 + 63))
ASSUME \A k \in 0..15 : PrintT("#LO " \o ToString(k * 64) \o " " \o LRow(56320 + k * 64, 56320 + k * 64 + 63))
RECURSIVE BRow(_)
BRow(b) == IF b > 255 THEN "" ELSE (IF b \in SimpleEsc THEN ToString(Simple(b)) ELSE "-") \o " " \o BRow(b + 1)
ASSUME PrintT("#SIMPLE " \o BRow(0))
RECURSIVE NRow(_)
NRow(b) == IF b > 255 THEN "" ELSE (IF NeedsEscape(b) THEN "1" ELSE "0") \o " " \o NRow(b + 1)
ASSUME PrintT("#NEEDS " \o NRow(0))
RECURSIVE Chars(_, _)
Chars(s, i) == IF i > Len(s) THEN "" ELSE (IF s[i] = 45 THEN "-" ELSE ToString(s[i] - 48)) \o Chars(s, i + 1)
ASSUME \A x \in Ints(Min64, Max64) :
         /\ Fits(x, Min32, Max32) => PrintT("#I32 " \o Chars(Spell(x.neg, x.m), 1))
         /\ Fits(x, Min64, Max64) => PrintT("#I64 " \o Chars(Spell(x.neg, x.m), 1))
=============================================================================
