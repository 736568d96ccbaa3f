SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaNum
  MaxLen = 5
  Prefix <- NoPrefix
INVARIANTS TypeOK SameLanguage CondenseOK Setters SetterParser
CHECK_DEADLOCK FALSE
