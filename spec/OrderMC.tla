------------------------------ MODULE OrderMC -------------------------------
EXTENDS Order
KeyNew == <<"sev", "what", "file", "line", "col", "rule">>
KeyOld == <<"sev", "what", "file", "line">>
=============================================================================
