SPECIFICATION Spec
CONSTANTS
  Alphabet <- AlphaLit
  MaxLen = 5
  Prefix <- NoPrefix
INVARIANTS TypeOK SameLanguage CondenseOK Setters SetterParser
CHECK_DEADLOCK FALSE
