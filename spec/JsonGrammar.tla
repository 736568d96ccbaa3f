---------------------------- MODULE JsonGrammar -----------------------------
(***************************************************************************)
(* The same language, written declaratively as in RFC 8259's ABNF, used    *)
(* only to check JsonText.  Slices [i, j) of a byte sequence s.            *)
(***************************************************************************)
EXTENDS JsonText, FiniteSets

HexVal(b) == IF b \in Digit THEN b - 48 ELSE IF b \in LowHex THEN b - 87 ELSE b - 55
CodeUnit(s, i) == 4096 * HexVal(s[i]) + 256 * HexVal(s[i+1]) + 16 * HexVal(s[i+2]) + HexVal(s[i+3])
IsU(s, i, j) == /\ i + 6 <= j /\ s[i] = BSlash /\ s[i+1] = LetU
                /\ \A k \in 2..5 : s[i+k] \in Hex
High(u) == u \in 55296..56319
Low(u) == u \in 56320..57343

RECURSIVE GBody(_, _, _)
GBody(s, i, j) ==                        \* *char
  \/ i = j
  \/ i < j /\ s[i] >= 32 /\ s[i] \notin {Quote, BSlash} /\ GBody(s, i + 1, j)
  \/ i + 1 < j /\ s[i] = BSlash /\ s[i+1] \in SimpleEsc /\ GBody(s, i + 2, j)
  \/ /\ IsU(s, i, j) /\ ~High(CodeUnit(s, i+2)) /\ ~Low(CodeUnit(s, i+2))
     /\ GBody(s, i + 6, j)
  \/ /\ IsU(s, i, j) /\ High(CodeUnit(s, i+2)) /\ IsU(s, i+6, j) /\ Low(CodeUnit(s, i+8))
     /\ GBody(s, i + 12, j)

GString(s, i, j) == j >= i + 2 /\ s[i] = Quote /\ s[j-1] = Quote /\ GBody(s, i + 1, j - 1)

AllDigits(s, i, j) == i < j /\ \A k \in i..(j-1) : s[k] \in Digit
GInt(s, i, j) == \/ j = i + 1 /\ s[i] = 48
                 \/ i < j /\ s[i] \in Digit19 /\ (i + 1 = j \/ AllDigits(s, i + 1, j))
GFrac(s, i, j) == i = j \/ (i < j /\ s[i] = Dot /\ AllDigits(s, i + 1, j))
GExp(s, i, j) == i = j \/ /\ i < j /\ s[i] \in ExpE
                          /\ \/ AllDigits(s, i + 1, j)
                             \/ i + 1 < j /\ s[i+1] \in {Plus, Minus} /\ AllDigits(s, i + 2, j)
GNumber(s, i, j) ==
  LET k == IF i < j /\ s[i] = Minus THEN i + 1 ELSE i IN
  \E a \in k..j : \E b \in a..j : GInt(s, k, a) /\ GFrac(s, a, b) /\ GExp(s, b, j)

Lit(s, i, j, w) == j - i = Len(w) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]
GLit(s, i, j) == \/ Lit(s, i, j, <<116, 114, 117, 101>>)
                 \/ Lit(s, i, j, <<102, 97, 108, 115, 101>>)
                 \/ Lit(s, i, j, <<110, 117, 108, 108>>)

AllWs(s, i, j) == \A k \in i..(j-1) : s[k] \in WS

RECURSIVE GValue(_, _, _), GElems(_, _, _), GMembers(_, _, _), GPadded(_, _, _)
GPadded(s, i, j) == \E a \in i..j : \E b \in a..j :
                       AllWs(s, i, a) /\ AllWs(s, b, j) /\ GValue(s, a, b)
GMember(s, i, j) == \E a \in i..j : AllWs(s, i, a) /\ \E b \in a..j : GString(s, a, b)
                       /\ \E c \in b..(j-1) : AllWs(s, b, c) /\ s[c] = Colon /\ GPadded(s, c + 1, j)
GElems(s, i, j) == \/ GPadded(s, i, j)
                   \/ \E k \in i..(j-1) : s[k] = Comma /\ GPadded(s, i, k) /\ GElems(s, k + 1, j)
GMembers(s, i, j) == \/ GMember(s, i, j)
                     \/ \E k \in i..(j-1) : s[k] = Comma /\ GMember(s, i, k) /\ GMembers(s, k + 1, j)
GValue(s, i, j) ==
  i < j /\
  CASE s[i] = LBrack -> s[j-1] = RBrack /\ j >= i + 2 /\ (AllWs(s, i+1, j-1) \/ GElems(s, i+1, j-1))
    [] s[i] = LBrace -> s[j-1] = RBrace /\ j >= i + 2 /\ (AllWs(s, i+1, j-1) \/ GMembers(s, i+1, j-1))
    [] s[i] = Quote  -> GString(s, i, j)
    [] s[i] \in {116, 102, 110} -> GLit(s, i, j)
    [] OTHER -> GNumber(s, i, j)

GJson(s) == GPadded(s, 1, Len(s) + 1)
=============================================================================
