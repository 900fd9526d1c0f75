------------------------------ MODULE TrOisc -------------------------------
EXTENDS IsaTrace, Oisc
=============================================================================
