------------------------------ MODULE TrM6809 -------------------------------
EXTENDS IsaTrace, M6809
=============================================================================
