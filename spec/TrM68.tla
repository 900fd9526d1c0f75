------------------------------ MODULE TrM68 -------------------------------
EXTENDS IsaTrace, M68
=============================================================================
