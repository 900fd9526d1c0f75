------------------------------ MODULE TrPblaze ------------------------------
EXTENDS IsaTrace, Pblaze
=============================================================================
