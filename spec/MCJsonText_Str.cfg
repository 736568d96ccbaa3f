SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaStr
  MaxLen = 5
  Prefix <- NoPrefix
INVARIANTS TypeOK SameLanguage CondenseOK Setters SetterParser
CHECK_DEADLOCK FALSE
