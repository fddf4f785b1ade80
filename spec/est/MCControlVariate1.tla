------------------------- MODULE MCControlVariate1 -------------------------
EXTENDS MCControlVariate
A1 == {<< >>, <<"1/2">>, <<"0">>}
E1 == {<<"0">>, <<"1">>}
A2 == {<< >>, <<"1/2", "-1">>}
E2 == {<<"0", "1">>}
=============================================================================
