----------------------------- MODULE ZDocExport -----------------------------
(***************************************************************************)
(* Writes the bounded behaviour of ZDoc as a labelled transition system:   *)
(* one line per reachable state with all its transitions.  The replayer    *)
(* drives the implementation along every one of them.                      *)
(***************************************************************************)
EXTENDS ZDoc, TLC

RECURSIVE Digits(_, _)
Digits(S, i) == IF i > 9 THEN "" ELSE (IF i \in S THEN ToString(i) ELSE "") \o Digits(S, i + 1)

RECURSIVE NodeCode(_)
RECURSIVE KidsCode(_, _)
KidsCode(cs, i) == IF i > Len(cs) THEN "" ELSE NodeCode(cs[i]) \o KidsCode(cs, i + 1)
NodeCode(n) == n.t \o n.x \o "." \o n.k \o "." \o Digits(n.hs, 1) \o "." \o Digits(n.d, 1)
               \o "(" \o KidsCode(n.c, 1) \o ")"

Abbrev == [nil |-> "n", empty |-> "e", node |-> "h", stale |-> "s"]
RECURSIVE HandleCode(_, _)
HandleCode(s, i) == IF i > NH THEN ""
                    ELSE Abbrev[s.h[i]] \o ToString(s.ha[i]) \o HandleCode(s, i + 1)
RECURSIVE AllocCode(_, _)
AllocCode(s, a) == IF a > NA THEN "" ELSE (IF s.al[a] THEN "+" ELSE "-") \o AllocCode(s, a + 1)

\* trees in the order of the smallest handle in them
RECURSIVE TreesCode(_, _, _)
TreesCode(s, i, done) ==
  IF i > NH THEN ""
  ELSE IF s.h[i] = "node" /\ i \notin done
       THEN LET T == TreeOf(s, i) IN NodeCode(T) \o TreesCode(s, i + 1, done \cup Labels(T))
       ELSE TreesCode(s, i + 1, done)
Code(s) == HandleCode(s, 1) \o AllocCode(s, 1) \o "|" \o TreesCode(s, 1, {})

Arg(x) == ToString(x)
RECURSIVE ArgsCode(_, _)
ArgsCode(c, i) == IF i > Len(c) THEN "" ELSE " " \o ToString(c[i]) \o ArgsCode(c, i + 1)
CallCode(c) == c[1] \o ArgsCode(c, 2)

\* calls whose outcome is shown: including the failing ones
Edges(s) == {LET R == Apply(s, c) IN CallCode(c) \o (IF R.r THEN " = 1 " ELSE " = 0 ") \o Code(R.st)
             : c \in {c \in Calls(s) : Allowed(s, c)}}
ASSUME \A i \in 1..Len(Texts) : PrintT("#TEXT " \o NodeCode(Texts[i]))
Dump == PrintT("@" \o Code(st) \o " " \o ToString(Edges(st)))
=============================================================================
