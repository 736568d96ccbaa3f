------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* The JSON language of RFC 8259 over bytes, as a deterministic pushdown   *)
(* transducer.  A configuration is [m, q, st]:                             *)
(*   m   the lexical mode,                                                 *)
(*   q   "k" inside an object key, "v" elsewhere,                          *)
(*   st  the stack of open containers, "a" (array) or "o" (object).        *)
(* Step consumes one byte.  The transducer's output is the condensed text: *)
(* every byte except insignificant white space.                            *)
(*                                                                         *)
(* zzzJSON's reading of the RFC: bytes >= 16#80 inside strings are opaque; *)
(* a \u escape of a lone surrogate is not JSON; the text contains no NUL   *)
(* (NUL terminates it).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0..255
WS == {32, 9, 10, 13}
Digit == 48..57
Digit19 == 49..57
LowHex == 97..102
UpHex == 65..70
Hex == Digit \cup LowHex \cup UpHex
Quote == 34
BSlash == 92
Minus == 45
Plus == 43
Dot == 46
Comma == 44
Colon == 58
LBrack == 91
RBrack == 93
LBrace == 123
RBrace == 125
ExpE == {101, 69}
LetU == 117
LetD == {100, 68}                            \* d D
SimpleEsc == {34, 92, 47, 98, 102, 110, 114, 116}  \* " \ / b f n r t
Plain == {b \in Byte : b >= 32 /\ b # Quote /\ b # BSlash}
HexLowSur1 == Digit \ {56, 57}                \* 0..7 : \uD0xx .. \uD7xx
HexHigh == {56, 57, 97, 98, 65, 66}           \* 8 9 a b : high surrogate
HexLow  == {99, 100, 101, 102, 67, 68, 69, 70}\* c..f    : low surrogate

StrModes == {"s", "se", "u1", "u2n", "u2d", "u3n", "u4n", "u3h", "u4h",
             "lb", "lu", "l1", "l2", "l3", "l4"}
NumModes == {"n-", "n0", "ni", "n.", "nf", "nE", "n+", "nx"}
NumEnd   == {"n0", "ni", "nf", "nx"}          \* a complete number so far
LitModes == {"T1", "T2", "T3", "F1", "F2", "F3", "F4", "N1", "N2", "N3"}
WsModes  == {"v", "a0", "k0", "k", "c", "e"}
Modes    == WsModes \cup StrModes \cup NumModes \cup LitModes \cup {"X"}

Cfg0 == [m |-> "v", q |-> "v", st |-> <<>>]
Reject == [m |-> "X", q |-> "v", st |-> <<>>]

Top(st) == IF st = <<>> THEN "-" ELSE st[Len(st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)

Goto(c, m) == [c EXCEPT !.m = m]

\* a byte that can start a value
ValueStart(c, b) ==
  CASE b = LBrack  -> [m |-> "a0", q |-> "v", st |-> Append(c.st, "a")]
    [] b = LBrace  -> [m |-> "k0", q |-> "v", st |-> Append(c.st, "o")]
    [] b = Quote   -> [c EXCEPT !.m = "s", !.q = "v"]
    [] b = Minus   -> Goto(c, "n-")
    [] b = 48      -> Goto(c, "n0")
    [] b \in Digit19 -> Goto(c, "ni")
    [] b = 116     -> Goto(c, "T1")
    [] b = 102     -> Goto(c, "F1")
    [] b = 110     -> Goto(c, "N1")
    [] OTHER       -> Reject

\* what may follow a complete value
AfterValue(c, b) ==
  CASE b \in WS -> Goto(c, "e")
    [] b = Comma  /\ Top(c.st) = "a" -> Goto(c, "v")
    [] b = Comma  /\ Top(c.st) = "o" -> Goto(c, "k")
    [] b = RBrack /\ Top(c.st) = "a" -> [m |-> "e", q |-> "v", st |-> Pop(c.st)]
    [] b = RBrace /\ Top(c.st) = "o" -> [m |-> "e", q |-> "v", st |-> Pop(c.st)]
    [] OTHER -> Reject

StrEnd(c) == IF c.q = "k" THEN [c EXCEPT !.m = "c", !.q = "v"]
                          ELSE [c EXCEPT !.m = "e"]

InString(c, b) ==
  CASE c.m = "s"   -> IF b = Quote THEN StrEnd(c)
                      ELSE IF b = BSlash THEN Goto(c, "se")
                      ELSE IF b \in Plain THEN c ELSE Reject
    [] c.m = "se"  -> IF b \in SimpleEsc THEN Goto(c, "s")
                      ELSE IF b = LetU THEN Goto(c, "u1") ELSE Reject
    [] c.m = "u1"  -> IF b \in LetD THEN Goto(c, "u2d")
                      ELSE IF b \in Hex THEN Goto(c, "u2n") ELSE Reject
    [] c.m = "u2n" -> IF b \in Hex THEN Goto(c, "u3n") ELSE Reject
    [] c.m = "u2d" -> IF b \in HexLowSur1 THEN Goto(c, "u3n")
                      ELSE IF b \in HexHigh THEN Goto(c, "u3h") ELSE Reject
    [] c.m = "u3n" -> IF b \in Hex THEN Goto(c, "u4n") ELSE Reject
    [] c.m = "u4n" -> IF b \in Hex THEN Goto(c, "s") ELSE Reject
    [] c.m = "u3h" -> IF b \in Hex THEN Goto(c, "u4h") ELSE Reject
    [] c.m = "u4h" -> IF b \in Hex THEN Goto(c, "lb") ELSE Reject
    [] c.m = "lb"  -> IF b = BSlash THEN Goto(c, "lu") ELSE Reject
    [] c.m = "lu"  -> IF b = LetU THEN Goto(c, "l1") ELSE Reject
    [] c.m = "l1"  -> IF b \in LetD THEN Goto(c, "l2") ELSE Reject
    [] c.m = "l2"  -> IF b \in HexLow THEN Goto(c, "l3") ELSE Reject
    [] c.m = "l3"  -> IF b \in Hex THEN Goto(c, "l4") ELSE Reject
    [] c.m = "l4"  -> IF b \in Hex THEN Goto(c, "s") ELSE Reject

InNumber(c, b) ==
  CASE c.m = "n-" -> IF b = 48 THEN Goto(c, "n0")
                     ELSE IF b \in Digit19 THEN Goto(c, "ni") ELSE Reject
    [] c.m = "n0" -> IF b = Dot THEN Goto(c, "n.")
                     ELSE IF b \in ExpE THEN Goto(c, "nE") ELSE AfterValue(c, b)
    [] c.m = "ni" -> IF b \in Digit THEN c
                     ELSE IF b = Dot THEN Goto(c, "n.")
                     ELSE IF b \in ExpE THEN Goto(c, "nE") ELSE AfterValue(c, b)
    [] c.m = "n." -> IF b \in Digit THEN Goto(c, "nf") ELSE Reject
    [] c.m = "nf" -> IF b \in Digit THEN c
                     ELSE IF b \in ExpE THEN Goto(c, "nE") ELSE AfterValue(c, b)
    [] c.m = "nE" -> IF b \in {Plus, Minus} THEN Goto(c, "n+")
                     ELSE IF b \in Digit THEN Goto(c, "nx") ELSE Reject
    [] c.m = "n+" -> IF b \in Digit THEN Goto(c, "nx") ELSE Reject
    [] c.m = "nx" -> IF b \in Digit THEN c ELSE AfterValue(c, b)

LitNext == [T1 |-> <<114, "T2">>, T2 |-> <<117, "T3">>, T3 |-> <<101, "e">>,
            F1 |-> <<97, "F2">>, F2 |-> <<108, "F3">>, F3 |-> <<115, "F4">>,
            F4 |-> <<101, "e">>,
            N1 |-> <<117, "N2">>, N2 |-> <<108, "N3">>, N3 |-> <<108, "e">>]

Step(c, b) ==
  CASE c.m = "X" -> Reject
    [] c.m \in WsModes /\ b \in WS -> c
    [] c.m = "v"  -> ValueStart(c, b)
    [] c.m = "a0" -> IF b = RBrack THEN [m |-> "e", q |-> "v", st |-> Pop(c.st)]
                                   ELSE ValueStart(c, b)
    [] c.m = "k0" -> IF b = RBrace THEN [m |-> "e", q |-> "v", st |-> Pop(c.st)]
                     ELSE IF b = Quote THEN [c EXCEPT !.m = "s", !.q = "k"]
                     ELSE Reject
    [] c.m = "k"  -> IF b = Quote THEN [c EXCEPT !.m = "s", !.q = "k"] ELSE Reject
    [] c.m = "c"  -> IF b = Colon THEN Goto(c, "v") ELSE Reject
    [] c.m = "e"  -> AfterValue(c, b)
    [] c.m \in StrModes -> InString(c, b)
    [] c.m \in NumModes -> InNumber(c, b)
    [] c.m \in LitModes -> IF b = LitNext[c.m][1] THEN Goto(c, LitNext[c.m][2]) ELSE Reject

\* white space is dropped unless it is inside a string
Emits(c, b) == ~(b \in WS /\ c.m \in WsModes \cup NumEnd)

Accepting(c) == c.st = <<>> /\ c.m \in {"e"} \cup NumEnd

RECURSIVE Run(_, _, _)
Run(c, s, i) == IF i > Len(s) THEN c ELSE Run(Step(c, s[i]), s, i + 1)

RECURSIVE RunOut(_, _, _, _)
RunOut(c, s, i, out) ==
  IF i > Len(s) THEN out
  ELSE RunOut(Step(c, s[i]), s, i + 1, IF Emits(c, s[i]) THEN Append(out, s[i]) ELSE out)

IsJson(s) == Accepting(Run(Cfg0, s, 1))
Condense(s) == RunOut(Cfg0, s, 1, <<>>)

\* string bodies and numbers as accepted by the setters: sub-languages of the same automaton
StrBody(s) == LET c == Run([m |-> "s", q |-> "v", st |-> <<>>], s, 1) IN c.m = "s"
NumText(s) == /\ s # <<>>
              /\ s[1] \in Digit \cup {Minus}
              /\ \A i \in 1..Len(s) : s[i] \notin WS
              /\ LET c == Run(Cfg0, s, 1) IN c.m \in NumEnd /\ c.st = <<>>
=============================================================================
