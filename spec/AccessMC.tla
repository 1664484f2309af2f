------------------------------ MODULE AccessMC ------------------------------
EXTENDS Access
Shown == PrintT(ToJson(<<"P", kind, path, cat.c, cat.const, cat.lv>>))
=============================================================================
