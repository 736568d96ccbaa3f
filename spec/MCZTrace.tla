------------------------------ MODULE MCZTrace ------------------------------
EXTENDS ZTrace
NoTexts == <<>>
NoOps == {}
=============================================================================
