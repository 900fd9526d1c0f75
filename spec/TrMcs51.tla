------------------------------ MODULE TrMcs51 -------------------------------
EXTENDS IsaTrace, Mcs51
=============================================================================
