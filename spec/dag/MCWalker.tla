----------------------------- MODULE MCWalker -----------------------------
EXTENDS Walker
SmallShapes == {<< >>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>}
===========================================================================
