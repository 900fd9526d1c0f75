------------------------------ MODULE TrI8048 -------------------------------
EXTENDS IsaTrace, I8048
=============================================================================
