----------------------------- MODULE TrMcs51Hw ------------------------------
EXTENDS IsaTrace, Mcs51Hw
=============================================================================
