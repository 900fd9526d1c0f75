------------------------------ MODULE TrM68HC12 -------------------------------
EXTENDS IsaTrace, M68HC12
=============================================================================
