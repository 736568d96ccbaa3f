CONSTANTS NH = 8
 NA = 4
 Keys = {}
 Lex = {}
 Texts <- NoTexts
 MaxNodes = 100
 MaxFan = 0
 SetTakesKey = FALSE
 Ops <- NoOps
INIT TInit
NEXT TNext
INVARIANTS Verdict TTypeOK
PROPERTIES FailureChangesNothing
CHECK_DEADLOCK FALSE
