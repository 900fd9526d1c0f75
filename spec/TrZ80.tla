------------------------------ MODULE TrZ80 -------------------------------
EXTENDS IsaTrace, Z80
=============================================================================
