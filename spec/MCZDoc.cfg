CONSTANTS NH = 2
 NA = 1
 Keys = {"k","l"}
 Lex = {"x","y"}
 Texts <- T1
 MaxNodes = 4
 MaxFan = 2
 SetTakesKey = FALSE
 Ops <- AllOps
INIT Init
NEXT Next
VIEW View
INVARIANT TypeOK
PROPERTIES FailureChangesNothing ReadsArePure SourceUnchanged EditsAreLocal TransferEmptiesSource TransferConserves AppendsAtEnd SetKeepsKeyAndPlace Isolation DeletesClose LookupFirst TransferMoves CopyIsEqual
CHECK_DEADLOCK FALSE
