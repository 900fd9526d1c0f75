------------------------------ MODULE TrStm8 -------------------------------
EXTENDS IsaTrace, Stm8
=============================================================================
