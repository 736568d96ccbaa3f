------------------------------- MODULE ZTrace -------------------------------
(***************************************************************************)
(* Validates executions recorded from the real library against ZDoc.       *)
(* Each line of the trace file is one program:                             *)
(*   [want |-> BOOLEAN, steps |-> << [c |-> call, r |-> result,            *)
(*     o |-> what every handle shows afterwards,                           *)
(*     w |-> what every handle serialises to] ... >>]                      *)
(* Texts, keys, strings and numbers are byte sequences; whether they are   *)
(* acceptable and what they mean is decided here (JsonText, ZStr, ZNum).   *)
(* want is FALSE for recordings that were corrupted on purpose: they have  *)
(* to be refused.                                                          *)
(***************************************************************************)
EXTENDS ZDoc, ZStr, ZNum, TLC, Json, IOUtils

Programs == ndJsonDeserialize(IOEnv.ZTRACE)

(* ------------------------- bytes as tokens ---------------------------- *)
HexCh == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexTab == [b \in Byte |-> HexCh[(b \div 16) + 1] \o HexCh[(b % 16) + 1]]
RECURSIVE HexFrom(_, _, _)
HexFrom(s, i, j) == IF i > j THEN "" ELSE HexTab[s[i]] \o HexFrom(s, i + 1, j)
HexOf(s) == HexFrom(s, 1, Len(s))
StrTok(s) == "s:" \o HexOf(s)
NumTok(s) == "n:" \o HexOf(s)
KeyTok(s) == "k:" \o HexOf(s)
NullTok == "z:null"
BoolTok(b) == IF b THEN "b:true" ELSE "b:false"

(* --------------------- the document of a valid text ------------------- *)
RECURSIVE EndOfStr(_, _)       \* index of the closing quote; i is inside the string
EndOfStr(s, i) == IF s[i] = Quote THEN i ELSE IF s[i] = BSlash THEN EndOfStr(s, i + 2) ELSE EndOfStr(s, i + 1)
RECURSIVE EndOfNum(_, _)       \* first index after the number
EndOfNum(s, i) == IF i > Len(s) \/ s[i] \in {Comma, RBrack, RBrace} THEN i ELSE EndOfNum(s, i + 1)
\* value at i of the condensed text s -> [n |-> node, i |-> index after it]
RECURSIVE ValAt(_, _)
RECURSIVE ItemsAt(_, _, _, _)
ItemsAt(s, i, t, acc) ==       \* i: at the first item
  LET q == IF t = "o" THEN EndOfStr(s, i + 1) ELSE 0
      v == ValAt(s, IF t = "o" THEN q + 2 ELSE i)
      n == IF t = "o" THEN [v.n EXCEPT !.k = "k:" \o HexFrom(s, i + 1, q - 1)] ELSE v.n
  IN IF s[v.i] = Comma THEN ItemsAt(s, v.i + 1, t, Append(acc, n))
     ELSE [n |-> Cont(t, Append(acc, n)), i |-> v.i + 1]
ValAt(s, i) ==
  CASE s[i] = LBrack -> IF s[i + 1] = RBrack THEN [n |-> Cont("a", <<>>), i |-> i + 2] ELSE ItemsAt(s, i + 1, "a", <<>>)
    [] s[i] = LBrace -> IF s[i + 1] = RBrace THEN [n |-> Cont("o", <<>>), i |-> i + 2] ELSE ItemsAt(s, i + 1, "o", <<>>)
    [] s[i] = Quote -> LET q == EndOfStr(s, i + 1) IN [n |-> Scalar("s:" \o HexFrom(s, i + 1, q - 1)), i |-> q + 1]
    [] s[i] = 116 -> [n |-> Scalar(BoolTok(TRUE)), i |-> i + 4]
    [] s[i] = 102 -> [n |-> Scalar(BoolTok(FALSE)), i |-> i + 5]
    [] s[i] = 110 -> [n |-> Scalar(NullTok), i |-> i + 4]
    [] OTHER -> LET e == EndOfNum(s, i) IN [n |-> Scalar("n:" \o HexFrom(s, i, e - 1)), i |-> e]
Document(text) == ValAt(Condense(text), 1).n

(* ----------------------- serialisation, as hex ------------------------ *)
Rest(tok) == SubSeq(tok, 3, Len(tok))
RECURSIVE Ser(_)
RECURSIVE SerItems(_, _, _)
SerItems(cs, i, t) ==
  IF i > Len(cs) THEN ""
  ELSE (IF i > 1 THEN "2c" ELSE "")
       \o (IF t = "o" THEN "22" \o Rest(cs[i].k) \o "223a" ELSE "")
       \o Ser(cs[i]) \o SerItems(cs, i + 1, t)
Ser(n) == CASE n.t = "a" -> "5b" \o SerItems(n.c, 1, "a") \o "5d"
            [] n.t = "o" -> "7b" \o SerItems(n.c, 1, "o") \o "7d"
            [] n.x = NullTok -> "6e756c6c"
            [] n.x = BoolTok(TRUE) -> "74727565"
            [] n.x = BoolTok(FALSE) -> "66616c7365"
            [] SubSeq(n.x, 1, 2) = "s:" -> "22" \o Rest(n.x) \o "22"
            [] OTHER -> Rest(n.x)

(* ------------------------------ the calls ----------------------------- *)
SetScalar(s, h, tok) == Ok(Install(s, h, Scalar(tok)))
\* concrete calls are those of ZDoc with byte sequences in the place of tokens
Concrete(s, c) ==
  LET n == c[1] h == c[2] IN
  CASE n = "Text" -> IF IsJson(c[3]) THEN Ok(Install(s, h, Document(c[3]))) ELSE Fail(s)
    [] n = "SetNull" -> SetScalar(s, h, NullTok)
    [] n = "SetBool" -> SetScalar(s, h, BoolTok(c[3]))
    [] n = "SetNum" -> IF NumText(c[3]) THEN SetScalar(s, h, NumTok(c[3])) ELSE Fail(s)
    [] n = "SetStr" -> IF StrBody(c[3]) THEN SetScalar(s, h, StrTok(c[3])) ELSE Fail(s)
    [] n = "SetStrEscape" -> \* c[4]: the spelling that was stored
         IF EscapedForm(c[4], c[3]) /\ Decode(c[4]) = c[3] THEN SetScalar(s, h, StrTok(c[4])) ELSE Fail(s)
    [] n = "SetInt" -> \* c[3]: the integer in decimal, c[4]: the spelling that was stored
         IF NumText(c[4]) /\ Denotes(c[4]) = Denotes(c[3]) THEN SetScalar(s, h, NumTok(c[4])) ELSE Fail(s)
    [] n = "SetDouble" -> \* c[3]: finite?, c[4]: the spelling that was stored
         IF c[3] /\ NumText(c[4]) THEN SetScalar(s, h, NumTok(c[4])) ELSE Fail(s)
    [] n = "SetKey" ->
         IF StrBody(c[3]) THEN Apply(s, <<"SetKey", h, KeyTok(c[3])>>) ELSE Fail(s)
    [] n = "SetKeyEscape" ->
         LET elem == IsNode(s, h) /\ ~IsRoot(s, h) /\ FatherOf(TreeOf(s, h), h).n.t = "a"
         IN IF elem THEN Fail(s)
            ELSE IF EscapedForm(c[4], c[3]) THEN Apply(s, <<"SetKey", h, KeyTok(c[4])>>) ELSE Fail(s)
    [] n = "NewFrom" -> Apply(s, <<"NewValue", h, s.ha[c[3]]>>)
    [] n = "ObjDel" -> Apply(s, <<"ObjDel", h, KeyTok(c[3])>>)
    [] n = "ObjGet" -> Apply(s, <<"ObjGet", h, c[3], KeyTok(c[4])>>)
    [] OTHER -> Apply(s, c)

\* the "N" of ZDoc's SetKey on an empty value is a null
RECURSIVE Nulls(_)
Nulls(n) == [n EXCEPT !.x = IF n.x = "N" THEN NullTok ELSE n.x, !.c = [i \in 1..Len(n.c) |-> Nulls(n.c[i])]]
WithNulls(s) == [s EXCEPT !.fo = {Nulls(T) : T \in s.fo}]

(* ------------------------------ validation ---------------------------- *)
Shows(s, h, o, w) ==
  CASE s.h[h] = "node" -> LET n == NodeAt(s, h) IN Shape(n) = o /\ Ser(n) = w
    [] s.h[h] = "empty" -> o.t = "e" /\ w = ""
    [] OTHER -> TRUE

VARIABLES p, i, ok
tvars == <<st, last, p, i, ok>>
TInit == /\ p \in 1..Len(Programs)
         /\ i = 0
         /\ ok = TRUE
         /\ st = [St0 EXCEPT !.al = [a \in ASet |-> FALSE]]
         /\ last = [c |-> <<"Init">>, r |-> TRUE]
TNext == /\ ok
         /\ i < Len(Programs[p].steps)
         /\ LET e == Programs[p].steps[i + 1]
                R == Concrete(st, e.c)
                s == WithNulls(R.st)
            IN /\ st' = s
               /\ last' = [c |-> e.c, r |-> R.r]
               /\ ok' = (R.r = e.r /\ \A h \in HSet : Shows(s, h, e.o[h], e.w[h]))
         /\ i' = i + 1
         /\ UNCHANGED p
\* a genuine recording is accepted to its end, a corrupted one is refused
Verdict == IF Programs[p].want THEN ok ELSE (i = Len(Programs[p].steps) => ~ok)
\* the properties of ZDoc hold along recorded executions, too
TTypeOK == TypeOK
Where == [program |-> p, step |-> i]
=============================================================================
