SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaStruct
  MaxLen = 5
  Prefix <- NoPrefix
INVARIANTS TypeOK SameLanguage CondenseOK Setters SetterParser
CHECK_DEADLOCK FALSE
