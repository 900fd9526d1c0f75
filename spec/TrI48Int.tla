------------------------------ MODULE TrI48Int ------------------------------
EXTENDS IsaTrace, I48Int
=============================================================================
