------------------------------ MODULE TrP1516 ------------------------------
EXTENDS IsaTrace, P1516
=============================================================================
