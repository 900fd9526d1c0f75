------------------------------ MODULE TrHc08 -------------------------------
EXTENDS IsaTrace, Hc08
=============================================================================
