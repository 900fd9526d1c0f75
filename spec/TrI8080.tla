------------------------------ MODULE TrI8080 -------------------------------
EXTENDS IsaTrace, I8080
=============================================================================
