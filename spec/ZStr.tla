-------------------------------- MODULE ZStr --------------------------------
(***************************************************************************)
(* What a JSON string body means: its decoding into bytes (UTF-8), and     *)
(* which bodies are escaped forms of given bytes.                          *)
(***************************************************************************)
EXTENDS JsonText

HexVal(b) == IF b \in Digit THEN b - 48 ELSE IF b \in LowHex THEN b - 87 ELSE b - 55
Unit(s, i) == HexVal(s[i]) * 4096 + HexVal(s[i + 1]) * 256 + HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])
IsHigh(u) == u >= 55296 /\ u <= 56319      \* D800..DBFF
IsLow(u)  == u >= 56320 /\ u <= 57343      \* DC00..DFFF
IsSur(u)  == IsHigh(u) \/ IsLow(u)
Pair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)

Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + (cp \div 64), 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

\* inverse of Utf8, for the laws below
UnUtf8(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> (s[1] - 192) * 64 + (s[2] - 128)
    [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128)
    [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + (s[4] - 128)

\* the character of a two-byte escape: \" \\ \/ \b \f \n \r \t
Simple(b) == CASE b = 98 -> 8 [] b = 102 -> 12 [] b = 110 -> 10 [] b = 114 -> 13 [] b = 116 -> 9
               [] OTHER -> b

\* decoding of a valid body
RECURSIVE Dec(_, _, _)
Dec(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE IF s[i] # BSlash THEN Dec(s, i + 1, Append(out, s[i]))
  ELSE IF s[i + 1] # LetU THEN Dec(s, i + 2, Append(out, Simple(s[i + 1])))
  ELSE LET u == Unit(s, i + 2)
       IN IF IsHigh(u) THEN Dec(s, i + 12, out \o Utf8(Pair(u, Unit(s, i + 8))))
          ELSE Dec(s, i + 6, out \o Utf8(u))
Decode(s) == Dec(s, 1, <<>>)

(* ------------------------------ escaping ------------------------------ *)
NeedsEscape(b) == b < 32 \/ b = Quote \/ b = BSlash
\* is body an escaped form of bytes?  Bytes that need no escape stand for themselves.
RECURSIVE EscOf(_, _, _, _)
EscOf(body, i, bytes, j) ==
  IF j > Len(bytes) THEN i > Len(body)
  ELSE IF i > Len(body) THEN FALSE
  ELSE IF ~NeedsEscape(bytes[j]) THEN body[i] = bytes[j] /\ EscOf(body, i + 1, bytes, j + 1)
  ELSE /\ body[i] = BSlash
       /\ i < Len(body)
       /\ IF body[i + 1] = LetU
          THEN i + 5 <= Len(body) /\ Unit(body, i + 2) = bytes[j] /\ EscOf(body, i + 6, bytes, j + 1)
          ELSE Simple(body[i + 1]) = bytes[j] /\ EscOf(body, i + 2, bytes, j + 1)
EscapedForm(body, bytes) == StrBody(body) /\ EscOf(body, 1, bytes, 1)

\* one escaped form (the library's choice)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Esc1(b) == CASE b = 8 -> <<BSlash, 98>> [] b = 9 -> <<BSlash, 116>> [] b = 10 -> <<BSlash, 110>>
             [] b = 12 -> <<BSlash, 102>> [] b = 13 -> <<BSlash, 114>>
             [] b = Quote -> <<BSlash, Quote>> [] b = BSlash -> <<BSlash, BSlash>>
             [] b < 32 /\ b \notin {8, 9, 10, 12, 13} -> <<BSlash, LetU, 48, 48, HexDigit(b \div 16), HexDigit(b % 16)>>
             [] OTHER -> <<b>>
RECURSIVE EscSeq(_, _, _)
EscSeq(s, i, out) == IF i > Len(s) THEN out ELSE EscSeq(s, i + 1, out \o Esc1(s[i]))
Escape(s) == EscSeq(s, 1, <<>>)

(* ------------------------------ laws ---------------------------------- *)
HexSeq(u) == <<HexDigit(u \div 4096), HexDigit((u \div 256) % 16), HexDigit((u \div 16) % 16), HexDigit(u % 16)>>
UEsc(u) == <<BSlash, LetU>> \o HexSeq(u)
WellFormedUtf8(s) ==
  CASE Len(s) = 1 -> s[1] < 128
    [] Len(s) = 2 -> s[1] \in 194..223 /\ s[2] \in 128..191
    [] Len(s) = 3 -> /\ s[1] \in 224..239 /\ s[2] \in 128..191 /\ s[3] \in 128..191
                     /\ s[1] = 224 => s[2] >= 160
                     /\ s[1] = 237 => s[2] <= 159
    [] Len(s) = 4 -> /\ s[1] \in 240..244 /\ \A i \in 2..4 : s[i] \in 128..191
                     /\ s[1] = 240 => s[2] >= 144
                     /\ s[1] = 244 => s[2] <= 143
    [] OTHER -> FALSE
\* every non-surrogate unit is accepted and decodes to well-formed UTF-8 of itself; no lone surrogate is
UnitLaw == \A u \in 0..65535 :
             /\ StrBody(UEsc(u)) <=> ~IsSur(u)
             /\ ~IsSur(u) => LET d == Decode(UEsc(u)) IN WellFormedUtf8(d) /\ UnUtf8(d) = u
\* pairs: accepted iff high then low; decoding is the 4-byte form, and factors into per-half tables
HighPart(h) == LET x == (h - 55296) + 64 IN <<240 + (x \div 256), 128 + ((x \div 4) % 64), 16 * (x % 4)>>
LowPart(l)  == LET y == l - 56320 IN <<128 + (y \div 64), 128 + (y % 64)>>
PairBytes(h, l) == LET a == HighPart(h) b == LowPart(l) IN <<a[1], a[2], a[3] + b[1], b[2]>>
PairLaw(H, L) == \A h \in H, l \in L :
             LET s == UEsc(h) \o UEsc(l) IN
             /\ StrBody(s) <=> (IsHigh(h) /\ IsLow(l)) \/ (~IsSur(h) /\ ~IsSur(l))
             /\ IsHigh(h) /\ IsLow(l) => /\ Decode(s) = PairBytes(h, l)
                                         /\ WellFormedUtf8(Decode(s))
                                         /\ UnUtf8(Decode(s)) = Pair(h, l)
EscapeLaw(S) == \A s \in S : EscapedForm(Escape(s), s) /\ Decode(Escape(s)) = s
\* whatever is an escaped form decodes to the bytes, and is the only thing it is an escaped form of
FormLaw(B, S) == \A b \in B, s \in S : EscapedForm(b, s) => Decode(b) = s
=============================================================================
