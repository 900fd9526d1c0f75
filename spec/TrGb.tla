------------------------------ MODULE TrGb -------------------------------
EXTENDS IsaTrace, Gb
=============================================================================
