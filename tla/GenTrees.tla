------------------------------ MODULE GenTrees ------------------------------
(* Every small logic tree, to be built and iterated in the implementation.    *)
EXTENDS MCLogicTree, Histories
GInit == Init
GNext == FALSE /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_vars
Emit == Print1(<<tree>>)
=============================================================================
