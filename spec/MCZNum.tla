------------------------------- MODULE MCZNum -------------------------------
EXTENDS ZNum
CONSTANT MaxLen
Alpha == {45, 43, 46, 48, 49, 57, 101}
Short == UNION {[1..k -> Alpha] : k \in 1..MaxLen}
\* the number texts are exactly the JSON texts that start with '-' or a digit and contain no white space
Agree == \A s \in Short : NumText(s) <=> IsJson(s)
\* appending a zero to an integer spelling multiplies by ten; to a fraction changes nothing
Ten == \A s \in {s \in Short : NumText(s)} :
         LET d == Denotes(s) IN
         /\ IntSpelling(s) /\ s \notin {<<48>>, <<45, 48>>}
              => Denotes(Append(s, 48)) = [d EXCEPT !.e = IF d.ds = <<>> THEN 0 ELSE d.e + 1]
         /\ (\E i \in 1..Len(s) : s[i] = 46) /\ (\A i \in 1..Len(s) : s[i] # 101)
              => Denotes(Append(s, 48)) = d
ASSUME SpellLaw
ASSUME PowLaw
ASSUME AltLaw
ASSUME Agree
ASSUME Ten
=============================================================================
