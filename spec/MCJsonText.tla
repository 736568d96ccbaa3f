----------------------------- MODULE MCJsonText -----------------------------
(* Exhaustive check JsonText = JsonGrammar on all strings up to MaxLen over Alphabet:
   every behaviour appends one byte; the transducer runs along. *)
EXTENDS JsonGrammar, TLC
CONSTANTS Alphabet, MaxLen, Prefix
VARIABLES s, c, out
vars == <<s, c, out>>
Init == s = Prefix /\ c = Run(Cfg0, Prefix, 1) /\ out = Condense(Prefix)
Next == /\ Len(s) < MaxLen
        /\ \E b \in Alphabet : /\ s' = Append(s, b)
                               /\ c' = Step(c, b)
                               /\ out' = IF Emits(c, b) THEN Append(out, b) ELSE out
Spec == Init /\ [][Next]_vars
TypeOK == c.m \in Modes /\ c.q \in {"k", "v"} /\ (c.q = "k" => c.m \in StrModes /\ Top(c.st) = "o")
SameLanguage == Accepting(c) <=> GJson(s)
\* condensing preserves validity, is idempotent and yields no white space outside strings
CondenseOK == Accepting(c) => IsJson(out) /\ Condense(out) = out
\* rejection is permanent: no extension of a dead prefix is JSON (checked via SameLanguage on extensions)
Setters == /\ (NumText(s) <=> GNumber(s, 1, Len(s) + 1))
           /\ (StrBody(s) <=> GBody(s, 1, Len(s) + 1))
\* the setters agree with the parser
SetterParser == StrBody(s) <=> IsJson(<<Quote>> \o s \o <<Quote>>)
\* ---- alphabets for the configurations (cfg files cannot contain sets of expressions) ----
AlphaStruct == {LBrack, RBrack, LBrace, RBrace, Comma, Colon, Quote, 49, 32}
AlphaNum == {Minus, Plus, Dot, 48, 49, 101, 69, 32, Comma}
AlphaLit == {116, 114, 117, 101, 102, 97, 108, 115, 110, 32}
AlphaStr == {Quote, BSlash, 117, 97, 100, 31, 128, 47, 48}
NoPrefix == <<>>
PreStr == <<Quote>>
PreLitT == <<116>>
PreArr == <<LBrack>>
PreObj == <<LBrace, Quote>>
\* surrogate arithmetic: all \uXXXX\uYYYY with representative digits
Rep == {48, 55, 56, 57, 97, 98, 99, 100, 102, 65, 66, 67, 68, 70, 103}
Rep2 == {48, 57, 102, 71}
USeq(a, b, d, e) == <<BSlash, LetU, a, b, d, e>>
SurrogateOK ==
  /\ \A a, b \in Rep, d \in Rep2 :
       LET x == USeq(a, b, d, 48) IN StrBody(x) <=> GBody(x, 1, 7)
  /\ \A a, b, e, f \in Rep :
       LET x == USeq(a, b, 48, 102) \o USeq(e, f, 57, 65) IN StrBody(x) <=> GBody(x, 1, 13)
  /\ \A e, f \in Rep2, a \in {100, 68}, b \in {56, 98} :
       LET x == USeq(a, b, e, 48) \o USeq(100, 99, f, e) IN StrBody(x) <=> GBody(x, 1, 13)
=============================================================================
