------------------------------- MODULE MCZStr -------------------------------
EXTENDS ZStr
CONSTANTS Full
Edge == {0, 1, 31, 32, 127, 128, 255, 256, 2047, 2048, 4095, 4096, 55295, 55296, 55297, 55550, 56318, 56319,
         56320, 56321, 56575, 57342, 57343, 57344, 57345, 65533, 65535}
Alpha == {0, 8, 9, 31, 32, 34, 47, 92, 97, 117, 127, 128, 255}
Strs(n) == UNION {[1..k -> Alpha] : k \in 0..n}
BAlpha == {34, 48, 92, 98, 110, 117, 120, 31, 255}
Bodies(n) == UNION {[1..k -> BAlpha] : k \in 0..n}
ASSUME UnitLaw
ASSUME PairLaw(Edge, Edge)
ASSUME Full => PairLaw(55296..56319, {56320, 56321, 56383, 56384, 57343}) /\ PairLaw({55296, 55297, 56319}, 56320..57343)
ASSUME EscapeLaw(Strs(IF Full THEN 4 ELSE 3))
ASSUME FormLaw(Bodies(IF Full THEN 4 ELSE 3), Strs(2))
ASSUME \A b \in 0..255 : EscapeLaw({<<b>>})
=============================================================================
