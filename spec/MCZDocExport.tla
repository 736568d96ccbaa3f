---------------------------- MODULE MCZDocExport ----------------------------
EXTENDS ZDocExport
S(x) == Scalar(x)
AllOps == {"NewValue","Parse","ParseBad","SetLex","SetBad","SetArray","SetObj","SetKey","SetKeyBad","Copy","Move","Set","SetFast","ArrayAdd","ArrayAddFast","ObjAdd","ObjAddFast","ArrayDel","ObjDel","ArrayGet","ObjGet","Begin","Next","Drop","Release","NewAllocator"}
T1 == << Cont("a", <<S("x"), S("y")>>), Cont("o", <<Keyed(S("x"), "k"), Keyed(S("y"), "k")>>) >>
=============================================================================
