-------------------------------- MODULE ZDoc --------------------------------
(***************************************************************************)
(* zzzJSON documents, handles and allocators: one action per public call.  *)
(*                                                                         *)
(* A document is an ordered labelled tree.  A node is                      *)
(*   [t  |-> "s" | "a" | "o"      scalar, array, object                    *)
(*    x  |-> lexeme token         (scalars; "" otherwise)                  *)
(*    k  |-> key token or ""      (members, and roots that were given one) *)
(*    c  |-> sequence of nodes    (children, in order)                     *)
(*    hs |-> set of handles       (the user's handles on this node)        *)
(*    d  |-> set of allocators    (whose memory this node uses)]           *)
(* Handles are the user's zj_Value pointers.  A handle is "nil" (the user  *)
(* has none), "empty" (a value without node), "node", or "stale": it       *)
(* designates content that was discarded (overwritten, deleted, or whose   *)
(* memory was released); using it is outside the contract.                 *)
(* The state is the set of trees some handle points into; content no handle*)
(* can reach is not part of it.  Keys and lexemes are opaque tokens: the   *)
(* replayer gives them concrete texts of any length and spelling.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NH,            \* handles are 1..NH
          NA,            \* allocators are 1..NA
          Keys,          \* key tokens
          Lex,           \* lexeme tokens of scalars
          Texts,         \* sequence of trees that texts may denote
          MaxNodes,      \* bound on the number of nodes held
          MaxFan,        \* bound on indices used in calls (indices 0..MaxFan)
          SetTakesKey,   \* TRUE for the beta header only
          Ops            \* set of operation names in use

HSet == 1..NH
ASet == 1..NA

Scalar(x) == [t |-> "s", x |-> x, k |-> "", c |-> <<>>, hs |-> {}, d |-> {}]
Cont(t, cs) == [t |-> t, x |-> "", k |-> "", c |-> cs, hs |-> {}, d |-> {}]
Keyed(n, k) == [n EXCEPT !.k = k]

(* ------------------------------ trees --------------------------------- *)
RECURSIVE Labels(_)
Labels(n) == n.hs \cup UNION {Labels(n.c[i]) : i \in 1..Len(n.c)}

RECURSIVE CountSeq(_, _)
RECURSIVE Count(_)
CountSeq(cs, i) == IF i > Len(cs) THEN 0 ELSE Count(cs[i]) + CountSeq(cs, i + 1)
Count(n) == 1 + CountSeq(n.c, 1)

RECURSIVE Deps(_)
Deps(n) == n.d \cup UNION {Deps(n.c[i]) : i \in 1..Len(n.c)}

\* index of the child of n whose subtree carries label h
ChildWith(n, h) == CHOOSE i \in 1..Len(n.c) : h \in Labels(n.c[i])

RECURSIVE Sub(_, _)
Sub(n, h) == IF h \in n.hs THEN n ELSE Sub(n.c[ChildWith(n, h)], h)

RECURSIVE Rep(_, _, _)
Rep(n, h, new) == IF h \in n.hs THEN new
                  ELSE LET i == ChildWith(n, h)
                       IN [n EXCEPT !.c[i] = Rep(n.c[i], h, new)]

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

RECURSIVE Rem(_, _)
Rem(n, h) == LET i == ChildWith(n, h)
             IN IF h \in n.c[i].hs THEN [n EXCEPT !.c = RemoveAt(n.c, i)]
                ELSE [n EXCEPT !.c[i] = Rem(n.c[i], h)]

\* the father of the node labelled h (which is not the root)
RECURSIVE FatherOf(_, _)
FatherOf(n, h) == LET i == ChildWith(n, h)
                  IN IF h \in n.c[i].hs THEN [n |-> n, i |-> i] ELSE FatherOf(n.c[i], h)

RECURSIVE Unlabel(_, _)
Unlabel(n, L) == [n EXCEPT !.hs = n.hs \ L,
                           !.c = [i \in 1..Len(n.c) |-> Unlabel(n.c[i], L)]]

\* a deep copy: same shape, no handle on it, memory from allocator a
RECURSIVE CopyTree(_, _)
CopyTree(n, a) == [n EXCEPT !.hs = {}, !.d = {a},
                            !.c = [i \in 1..Len(n.c) |-> CopyTree(n.c[i], a)]]

\* what can be observed of a tree (no handles, no memory)
RECURSIVE Shape(_)
Shape(n) == [t |-> n.t, x |-> n.x, k |-> n.k, c |-> [i \in 1..Len(n.c) |-> Shape(n.c[i])]]

FirstWithKey(n, k) == LET S == {i \in 1..Len(n.c) : n.c[i].k = k}
                      IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

(* ------------------------------ states -------------------------------- *)
St0 == [fo |-> {}, h |-> [i \in HSet |-> "nil"], ha |-> [i \in HSet |-> 0],
        al |-> [a \in ASet |-> a = 1]]

TreeOf(st, h) == CHOOSE T \in st.fo : h \in Labels(T)
NodeAt(st, h) == Sub(TreeOf(st, h), h)
IsRoot(st, h) == h \in TreeOf(st, h).hs
IsNode(st, h) == st.h[h] = "node"
Usable(st, h) == st.h[h] \in {"empty", "node"}

RECURSIVE SumCount(_)
SumCount(S) == IF S = {} THEN 0 ELSE LET T == CHOOSE T \in S : TRUE IN Count(T) + SumCount(S \ {T})
Nodes(st) == SumCount(st.fo)

\* is the node of handle h inside the subtree of handle g (or that node itself)?
Inside(st, h, g) == IsNode(st, h) /\ IsNode(st, g) /\ h \in Labels(NodeAt(st, g))

\* new forest -> new state; handles of `gone` whose label vanished become stale
WithForest(st, fo) ==
  LET live == {T \in fo : Labels(T) # {}}
      lab == UNION {Labels(T) : T \in live}
  IN [st EXCEPT !.fo = live,
                !.h = [i \in HSet |-> IF st.h[i] = "node" /\ i \notin lab THEN "stale" ELSE st.h[i]]]

\* the user's handle variable g is overwritten: it leaves the trees
Forget(st, g) ==
  IF st.h[g] = "node"
  THEN WithForest([st EXCEPT !.h[g] = "nil", !.ha[g] = 0],
         (st.fo \ {TreeOf(st, g)}) \cup {Unlabel(TreeOf(st, g), {g})})
  ELSE [st EXCEPT !.h[g] = "nil", !.ha[g] = 0]

Ok(st) == [st |-> st, r |-> TRUE]
Fail(st) == [st |-> st, r |-> FALSE]

\* replace content (type, lexeme, children) of the node of h by that of n, keeping key, place, handles
Overwrite(st, h, n) ==
  LET T == TreeOf(st, h)
      N == Sub(T, h)
      N2 == [N EXCEPT !.t = n.t, !.x = n.x, !.c = n.c, !.d = N.d \cup n.d \cup {st.ha[h]},
                      !.k = IF SetTakesKey /\ N.k # "" /\ n.k # "" THEN n.k ELSE N.k]
  IN WithForest(st, (st.fo \ {T}) \cup {Rep(T, h, N2)})

NewRoot(st, h, n) ==    \* handle h, so far empty, gets the tree n
  WithForest([st EXCEPT !.h[h] = "node"], st.fo \cup {[n EXCEPT !.hs = n.hs \cup {h}]})

\* put a fresh content into h, whether or not it already has a node
Install(st, h, n) ==
  LET m == CopyTree(n, st.ha[h])
  IN IF IsNode(st, h) THEN Overwrite(st, h, [m EXCEPT !.k = ""]) ELSE NewRoot(st, h, m)

\* detach the subtree of handle g; returns the new forest (without the subtree) and the subtree
Detach(st, g) ==
  LET T == TreeOf(st, g)
  IN IF g \in T.hs THEN [fo |-> st.fo \ {T}, n |-> T]
     ELSE [fo |-> (st.fo \ {T}) \cup {Rem(T, g)}, n |-> Sub(T, g)]

AppendTo(st, h, n) ==    \* append child n to the container of h
  LET T == TreeOf(st, h)
      N == Sub(T, h)
  IN (st.fo \ {T}) \cup {Rep(T, h, [N EXCEPT !.c = Append(N.c, n), !.d = N.d \cup {st.ha[h]}])}

AddLabelChild(T, h, i, g) ==
  LET N == Sub(T, h) IN Rep(T, h, [N EXCEPT !.c[i].hs = N.c[i].hs \cup {g}])

\* result handle of a getter: child i of node h (i = 0: absent)
GetChild(st, g, h, i) ==
  IF i = 0 THEN Fail(Forget(st, g))
  ELSE LET a == st.ha[h]
           T == TreeOf(st, h)
           \* a temporary label 0 keeps the target while g is forgotten
           T1 == AddLabelChild(T, h, i, 0)
           s1 == [st EXCEPT !.fo = (st.fo \ {T}) \cup {T1}]
           s2 == Forget(s1, g)
           U == CHOOSE X \in s2.fo : 0 \in Labels(X)
           N == Sub(U, 0)
           U1 == Rep(U, 0, [N EXCEPT !.hs = (N.hs \ {0}) \cup {g}])
       IN Ok([s2 EXCEPT !.fo = (s2.fo \ {U}) \cup {U1}, !.h[g] = "node", !.ha[g] = a])

(* ------------------------------ the calls ----------------------------- *)
\* A call is a tuple <<name, arguments...>>.
OutRegs(st) == \* handle variables a getter may store into: a free one if there is one, else any
  LET free == {g \in HSet : st.h[g] \in {"nil"}}
  IN IF free = {} THEN HSet ELSE {CHOOSE g \in free : \A f \in free : g <= f}

Calls(st) ==
  LET U == {h \in HSet : Usable(st, h)}
      G == OutRegs(st)
      op(n) == n \in Ops
      LA == {a \in ASet : st.al[a]}
  IN  (IF op("NewValue") THEN {<<"NewValue", g, a>> : g \in G, a \in LA} ELSE {})
 \cup (IF op("Parse") THEN {<<"Parse", h, i>> : h \in U, i \in 1..Len(Texts)} ELSE {})
 \cup (IF op("ParseBad") THEN {<<"ParseBad", h>> : h \in U} ELSE {})
 \cup (IF op("SetLex") THEN {<<"SetLex", h, x>> : h \in U, x \in Lex} ELSE {})
 \cup (IF op("SetBad") THEN {<<"SetBad", h>> : h \in U} ELSE {})
 \cup (IF op("SetArray") THEN {<<"SetArray", h>> : h \in U} ELSE {})
 \cup (IF op("SetObj") THEN {<<"SetObj", h>> : h \in U} ELSE {})
 \cup (IF op("SetKey") THEN {<<"SetKey", h, k>> : h \in U, k \in Keys} ELSE {})
 \cup (IF op("SetKeyBad") THEN {<<"SetKeyBad", h>> : h \in U} ELSE {})
 \cup (IF op("Copy") THEN {<<"Copy", g, h>> : g \in G, h \in U} ELSE {})
 \cup (IF op("Move") THEN {<<"Move", h>> : h \in U} ELSE {})
 \cup (IF op("Set") THEN {<<"Set", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("SetFast") THEN {<<"SetFast", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("ArrayAdd") THEN {<<"ArrayAdd", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("ArrayAddFast") THEN {<<"ArrayAddFast", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("ObjAdd") THEN {<<"ObjAdd", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("ObjAddFast") THEN {<<"ObjAddFast", h, f>> : h \in U, f \in U} ELSE {})
 \cup (IF op("ArrayDel") THEN {<<"ArrayDel", h, i>> : h \in U, i \in 0..MaxFan} ELSE {})
 \cup (IF op("ObjDel") THEN {<<"ObjDel", h, k>> : h \in U, k \in Keys} ELSE {})
 \cup (IF op("ArrayGet") THEN {<<"ArrayGet", g, h, i>> : g \in G, h \in U, i \in 0..MaxFan} ELSE {})
 \cup (IF op("ObjGet") THEN {<<"ObjGet", g, h, k>> : g \in G, h \in U, k \in Keys} ELSE {})
 \cup (IF op("Begin") THEN {<<"Begin", g, h>> : g \in G, h \in U} ELSE {})
 \cup (IF op("Next") THEN {<<"Next", g, h>> : g \in G, h \in U} \cup {<<"Next", h, h>> : h \in U} ELSE {})
 \cup (IF op("Drop") THEN {<<"Drop", h>> : h \in {i \in HSet : st.h[i] # "nil"}} ELSE {})
 \cup (IF op("Release") THEN {<<"Release", a>> : a \in LA} ELSE {})
 \cup (IF op("NewAllocator") THEN {<<"NewAllocator", a>> : a \in ASet \ LA} ELSE {})

\* the contract: a Fast transfer of a value into itself or into its own descendant is not allowed
InContract(st, c) ==
  LET n == c[1] IN
  IF n \in {"SetFast", "ArrayAddFast", "ObjAddFast"} /\ Inside(st, c[2], c[3])
  THEN \* only harmless when the call fails anyway
       CASE n = "SetFast" -> FALSE
         [] n = "ArrayAddFast" -> NodeAt(st, c[2]).t # "a"
         [] n = "ObjAddFast" -> (NodeAt(st, c[2]).t # "o") \/ (NodeAt(st, c[3]).k = "")
  ELSE TRUE

Is(st, h, t) == IsNode(st, h) /\ NodeAt(st, h).t = t

Apply(st, c) ==
  LET n == c[1] IN
  CASE n = "NewValue" ->
         LET s == Forget(st, c[2]) IN Ok([s EXCEPT !.h[c[2]] = "empty", !.ha[c[2]] = c[3]])
    [] n = "Parse" -> Ok(Install(st, c[2], Texts[c[3]]))
    [] n = "ParseBad" -> Fail(st)
    [] n = "SetLex" -> Ok(Install(st, c[2], Scalar(c[3])))
    [] n = "SetBad" -> Fail(st)
    [] n = "SetArray" -> Ok(Install(st, c[2], Cont("a", <<>>)))
    [] n = "SetObj" -> Ok(Install(st, c[2], Cont("o", <<>>)))
    [] n = "SetKey" ->
         LET h == c[2] IN
         IF ~IsNode(st, h) THEN Ok(NewRoot(st, h, CopyTree(Keyed(Scalar("N"), c[3]), st.ha[h])))
         ELSE IF ~IsRoot(st, h) /\ FatherOf(TreeOf(st, h), h).n.t = "a" THEN Fail(st)
         ELSE LET T == TreeOf(st, h)
                  N == Sub(T, h)
              IN Ok(WithForest(st, (st.fo \ {T})
                     \cup {Rep(T, h, [N EXCEPT !.k = c[3], !.d = N.d \cup {st.ha[h]}])}))
    [] n = "SetKeyBad" -> Fail(st)
    [] n = "Copy" ->
         LET g == c[2] h == c[3] IN
         IF ~IsNode(st, h) THEN Fail(Forget(st, g))
         ELSE LET m == CopyTree(NodeAt(st, h), st.ha[h])
                  a == st.ha[h]
                  s == Forget(st, g)
              IN Ok(NewRoot([s EXCEPT !.ha[g] = a], g, m))
    [] n = "Move" ->
         LET h == c[2] IN
         IF ~IsNode(st, h) THEN Fail(st)
         ELSE IF IsRoot(st, h) THEN Ok(st)
         ELSE LET D == Detach(st, h) IN Ok(WithForest(st, D.fo \cup {D.n}))
    [] n = "Set" ->
         LET h == c[2] f == c[3] IN
         IF ~IsNode(st, f) THEN Fail(st)
         ELSE LET m == CopyTree(NodeAt(st, f), st.ha[h])
              IN IF IsNode(st, h) THEN Ok(Overwrite(st, h, m)) ELSE Ok(NewRoot(st, h, m))
    [] n = "SetFast" ->
         LET h == c[2] f == c[3] IN
         IF ~IsNode(st, f) THEN Fail(st)
         ELSE LET D == Detach(st, f)
                  s == [st EXCEPT !.fo = D.fo, !.h[f] = "empty"]
              IN IF IsNode(st, h)
                 THEN Ok(Overwrite(s, h, D.n))
                 ELSE Ok(NewRoot(s, h, [D.n EXCEPT !.hs = D.n.hs \ {f}]))
    [] n \in {"ArrayAdd", "ObjAdd"} ->
         LET h == c[2] f == c[3] IN
         IF ~Is(st, h, IF n = "ArrayAdd" THEN "a" ELSE "o") \/ ~IsNode(st, f) THEN Fail(st)
         ELSE IF n = "ObjAdd" /\ NodeAt(st, f).k = "" THEN Fail(st)
         ELSE LET m == CopyTree(NodeAt(st, f), st.ha[h])
              IN Ok(WithForest(st, AppendTo(st, h, IF n = "ArrayAdd" THEN [m EXCEPT !.k = ""] ELSE m)))
    [] n \in {"ArrayAddFast", "ObjAddFast"} ->
         LET h == c[2] f == c[3] IN
         IF ~Is(st, h, IF n = "ArrayAddFast" THEN "a" ELSE "o") \/ ~IsNode(st, f) THEN Fail(st)
         ELSE IF n = "ObjAddFast" /\ NodeAt(st, f).k = "" THEN Fail(st)
         ELSE LET D == Detach(st, f)
                  s == [st EXCEPT !.fo = D.fo, !.h[f] = "empty"]
                  m == [D.n EXCEPT !.hs = D.n.hs \ {f},
                                   !.k = IF n = "ArrayAddFast" THEN "" ELSE D.n.k]
              IN Ok(WithForest(s, AppendTo(s, h, m)))
    [] n = "ArrayDel" ->
         LET h == c[2] IN
         IF ~Is(st, h, "a") THEN Fail(st)
         ELSE LET T == TreeOf(st, h)
                  N == Sub(T, h)
              IN IF c[3] >= Len(N.c) THEN Fail(st)
                 ELSE Ok(WithForest(st, (st.fo \ {T})
                         \cup {Rep(T, h, [N EXCEPT !.c = RemoveAt(N.c, c[3] + 1)])}))
    [] n = "ObjDel" ->
         LET h == c[2] IN
         IF ~Is(st, h, "o") THEN Fail(st)
         ELSE LET T == TreeOf(st, h)
                  N == Sub(T, h)
                  i == FirstWithKey(N, c[3])
              IN IF i = 0 THEN Fail(st)
                 ELSE Ok(WithForest(st, (st.fo \ {T})
                         \cup {Rep(T, h, [N EXCEPT !.c = RemoveAt(N.c, i)])}))
    [] n = "ArrayGet" ->
         LET h == c[3] IN
         GetChild(st, c[2], h, IF Is(st, h, "a") /\ c[4] < Len(NodeAt(st, h).c) THEN c[4] + 1 ELSE 0)
    [] n = "ObjGet" ->
         LET h == c[3] IN
         GetChild(st, c[2], h, IF Is(st, h, "o") THEN FirstWithKey(NodeAt(st, h), c[4]) ELSE 0)
    [] n = "Begin" ->
         LET h == c[3] IN
         GetChild(st, c[2], h, IF IsNode(st, h) /\ Len(NodeAt(st, h).c) > 0 THEN 1 ELSE 0)
    [] n = "Next" ->
         LET g == c[2] h == c[3] IN
         IF ~IsNode(st, h) \/ IsRoot(st, h) THEN Fail(Forget(st, g))
         ELSE LET T == TreeOf(st, h)
                  F == FatherOf(T, h)
              IN IF F.i = Len(F.n.c) THEN Fail(Forget(st, g))
                 ELSE LET RECURSIVE LabelNext(_)
                          LabelNext(m) ==
                            LET i == ChildWith(m, h)
                            IN IF h \in m.c[i].hs THEN [m EXCEPT !.c[i + 1].hs = @ \cup {0}]
                               ELSE [m EXCEPT !.c[i] = LabelNext(m.c[i])]
                          a == st.ha[h]
                          s1 == [st EXCEPT !.fo = (st.fo \ {T}) \cup {LabelNext(T)}]
                          s2 == Forget(s1, g)
                          U == CHOOSE X \in s2.fo : 0 \in Labels(X)
                          N == Sub(U, 0)
                          U1 == Rep(U, 0, [N EXCEPT !.hs = (N.hs \ {0}) \cup {g}])
                      IN Ok([s2 EXCEPT !.fo = (s2.fo \ {U}) \cup {U1}, !.h[g] = "node", !.ha[g] = a])
    [] n = "Drop" -> Ok(Forget(st, c[2]))
    [] n = "Release" ->
         LET a == c[2]
             mine == {i \in HSet : st.ha[i] = a}
             s1 == [st EXCEPT !.h = [i \in HSet |-> IF i \in mine THEN "nil" ELSE st.h[i]],
                              !.ha = [i \in HSet |-> IF i \in mine THEN 0 ELSE st.ha[i]],
                              !.al[a] = FALSE]
         IN Ok(WithForest(s1, {Unlabel(T, mine) : T \in {X \in st.fo : a \notin Deps(X)}}))
    [] n = "NewAllocator" -> Ok([st EXCEPT !.al[c[2]] = TRUE])

Allowed(st, c) == InContract(st, c) /\ Nodes(Apply(st, c).st) <= MaxNodes

(* ------------------------------ the machine --------------------------- *)
VARIABLES st, last
vars == <<st, last>>
Init == st = St0 /\ last = [c |-> <<"Init">>, r |-> TRUE]
Next == \E c \in Calls(st) :
          /\ Allowed(st, c)
          /\ LET R == Apply(st, c) IN st' = R.st /\ last' = [c |-> c, r |-> R.r]
Spec == Init /\ [][Next]_vars
View == st

(* ------------------------------ properties ---------------------------- *)
RECURSIVE WellFormed(_)
WellFormed(n) == /\ n.t \in {"s", "a", "o"}
                 /\ n.t = "s" => n.c = <<>> /\ n.x # ""
                 /\ n.t # "s" => n.x = ""
                 /\ \A i \in 1..Len(n.c) : /\ WellFormed(n.c[i])
                                           /\ n.t = "a" => n.c[i].k = ""     \* elements have no key
                                           /\ n.t = "o" => n.c[i].k # ""     \* members have one
LabelCount(n, h) == LET RECURSIVE LC(_)
                        LC(m) == (IF h \in m.hs THEN 1 ELSE 0)
                                 + (LET RECURSIVE S(_)
                                        S(i) == IF i > Len(m.c) THEN 0 ELSE LC(m.c[i]) + S(i + 1)
                                    IN S(1))
                    IN LC(n)
TypeOK ==
  /\ \A T \in st.fo : WellFormed(T) /\ Labels(T) # {} /\ Labels(T) \subseteq HSet
  /\ \A h \in HSet : st.h[h] = "node" <=> \E T \in st.fo : h \in Labels(T)
  /\ \A h \in HSet : IsNode(st, h) =>
       /\ Cardinality({T \in st.fo : h \in Labels(T)}) = 1
       /\ LabelCount(TreeOf(st, h), h) = 1                   \* a handle designates one place
  /\ \A h \in HSet : Usable(st, h) => st.al[st.ha[h]]        \* usable handles live in live allocators
  /\ \A T \in st.fo : \A a \in Deps(T) : st.al[a]            \* and so does all reachable content

Getters == {"ArrayGet", "ObjGet", "Begin", "Next", "Copy"}
\* what the user can see through handle h
See(s, h) == IF s.h[h] = "node" THEN Shape(NodeAt(s, h)) ELSE [t |-> s.h[h]]
Place(s, h) == IF ~IsNode(s, h) THEN <<>> ELSE IF IsRoot(s, h) THEN <<0>>
               ELSE LET F == FatherOf(TreeOf(s, h), h) IN <<F.i, Shape(F.n)>>
Out(c) == IF c[1] \in Getters \cup {"NewValue", "Drop"} THEN {c[2]} ELSE {}

\* C03: a failed call changes nothing that can be seen (a getter only overwrites its result variable)
FailureChangesNothing ==
  [][ ~last'.r => \A h \in HSet \ Out(last'.c) : See(st', h) = See(st, h) /\ Place(st', h) = Place(st, h) ]_vars
\* C13: reads change nothing
ReadsArePure ==
  [][ last'.c[1] \in {"ArrayGet", "ObjGet", "Begin", "Next"} =>
        \A h \in HSet \ Out(last'.c) : See(st', h) = See(st, h) /\ Place(st', h) = Place(st, h) ]_vars
\* C06: the source of a copying call is unchanged unless the destination is inside or around it
Copying == {"Set", "ArrayAdd", "ObjAdd"}
SourceUnchanged ==
  [][ last'.c[1] \in Copying /\ last'.r /\ ~Inside(st, last'.c[2], last'.c[3])
        /\ ~Inside(st, last'.c[3], last'.c[2])
      => See(st', last'.c[3]) = See(st, last'.c[3]) /\ Place(st', last'.c[3])[1] = Place(st, last'.c[3])[1] ]_vars
\* C06: an edit through h is invisible in every other tree
Writes == {"Parse", "SetLex", "SetArray", "SetObj", "SetKey", "Set", "ArrayAdd", "ObjAdd", "ArrayDel", "ObjDel"}
EditsAreLocal ==
  [][ last'.c[1] \in Writes =>
        \A h \in HSet : IsNode(st, h) /\ (~IsNode(st, last'.c[2]) \/ TreeOf(st, h) # TreeOf(st, last'.c[2]))
                        /\ h # last'.c[2]
                        => See(st', h) = See(st, h) /\ Place(st', h) = Place(st, h) ]_vars
\* C07: a transfer empties the source handle and conserves the nodes held (minus overwritten content)
Fast == {"ArrayAddFast", "ObjAddFast", "SetFast"}
TransferEmptiesSource == [][ last'.c[1] \in Fast /\ last'.r => st'.h[last'.c[3]] = "empty" ]_vars
TransferConserves ==
  [][ last'.c[1] \in {"ArrayAddFast", "ObjAddFast"} /\ last'.r
        => LET h == last'.c[2]
               n == NodeAt(st', h)
               m == NodeAt(st, last'.c[3])
           IN /\ Len(n.c) >= 1
              /\ Shape(n.c[Len(n.c)]) = (IF last'.c[1] = "ArrayAddFast" THEN [Shape(m) EXCEPT !.k = ""] ELSE Shape(m)) ]_vars
\* C04: appends go to the end and everything before stays
AppendsAtEnd ==
  [][ last'.c[1] \in {"ArrayAdd", "ObjAdd"} /\ last'.r
        => LET o == NodeAt(st, last'.c[2]).c
               w == NodeAt(st', last'.c[2]).c
           IN Len(w) = Len(o) + 1 /\ \A i \in 1..Len(o) : Shape(w[i]) = Shape(o[i]) ]_vars
\* C07/C04: setting keeps the destination's key and position
SetKeepsKeyAndPlace ==
  [][ last'.c[1] \in {"Set", "Parse", "SetLex", "SetArray", "SetObj"} /\ last'.r /\ IsNode(st, last'.c[2])
        => /\ SetTakesKey \/ NodeAt(st', last'.c[2]).k = NodeAt(st, last'.c[2]).k
           /\ Place(st', last'.c[2])[1] = Place(st, last'.c[2])[1] ]_vars
\* C16: an operation on one allocator's trees leaves trees without that allocator's memory alone
Isolation ==
  [][ last'.c[1] = "Release" =>
        \A h \in HSet : IsNode(st, h) /\ st.ha[h] # last'.c[2] /\ last'.c[2] \notin Deps(TreeOf(st, h))
                        => See(st', h) = See(st, h) ]_vars
\* C04: a deletion removes exactly the designated child and closes the gap
Shapes(cs) == [i \in 1..Len(cs) |-> Shape(cs[i])]
DeletesClose ==
  [][ last'.c[1] \in {"ArrayDel", "ObjDel"} =>
        LET h == last'.c[2]
            t == IF last'.c[1] = "ArrayDel" THEN "a" ELSE "o"
            o == IF Is(st, h, t) THEN NodeAt(st, h).c ELSE <<>>
            S == {i \in 1..Len(o) : IF t = "a" THEN i = last'.c[3] + 1 ELSE o[i].k = last'.c[3]}
        IN /\ last'.r <=> S # {}
           /\ last'.r => LET i == CHOOSE i \in S : \A j \in S : i <= j
                         IN Shapes(NodeAt(st', h).c) = Shapes(RemoveAt(o, i)) ]_vars
\* C05: a lookup designates the first member with that key, and nothing if there is none
LookupFirst ==
  [][ last'.c[1] = "ObjGet" =>
        LET h == last'.c[3]
            o == IF Is(st, h, "o") THEN NodeAt(st, h).c ELSE <<>>
            S == {i \in 1..Len(o) : o[i].k = last'.c[4]}
        IN /\ last'.r <=> S # {}
           /\ last'.r => LET i == CHOOSE i \in S : \A j \in S : i <= j
                             g == last'.c[2]
                             F == FatherOf(TreeOf(st', g), g)
                         IN See(st', g) = Shape(o[i]) /\ F.i = i /\ Shapes(F.n.c) = Shapes(o) ]_vars
\* C07: Move makes the value a complete root and takes exactly it out of its father
TransferMoves ==
  [][ last'.c[1] = "Move" /\ last'.r =>
        LET h == last'.c[2]
        IN /\ IsRoot(st', h) /\ See(st', h) = See(st, h)
           /\ IsRoot(st, h) => st' = st
           /\ ~IsRoot(st, h) =>
                LET F == FatherOf(TreeOf(st, h), h)
                IN \A g \in F.n.hs : Shapes(NodeAt(st', g).c) = Shapes(RemoveAt(F.n.c, F.i)) ]_vars
\* C06: a copy equals its source and uses the receiver's memory only
CopyIsEqual ==
  [][ /\ last'.c[1] = "Copy" /\ last'.r =>
           LET g == last'.c[2] h == last'.c[3]
           IN See(st', g) = See(st, h) /\ IsRoot(st', g) /\ Deps(NodeAt(st', g)) = {st.ha[h]}
      /\ last'.c[1] = "Set" /\ last'.r =>
           LET h == last'.c[2] f == last'.c[3]
               n == NodeAt(st', h) m == NodeAt(st, f)
           IN /\ n.t = m.t /\ n.x = m.x /\ Shapes(n.c) = Shapes(m.c)
              /\ \A i \in 1..Len(n.c) : Deps(n.c[i]) = {st.ha[h]}
      /\ last'.c[1] \in {"ArrayAdd", "ObjAdd"} /\ last'.r =>
           LET h == last'.c[2]
               n == NodeAt(st', h) m == NodeAt(st, last'.c[3])
           IN /\ Shape(n.c[Len(n.c)]) = (IF last'.c[1] = "ArrayAdd" THEN [Shape(m) EXCEPT !.k = ""] ELSE Shape(m))
              /\ Deps(n.c[Len(n.c)]) = {st.ha[h]} ]_vars
=============================================================================
