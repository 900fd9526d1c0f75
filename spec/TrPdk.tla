------------------------------ MODULE TrPdk -------------------------------
EXTENDS IsaTrace, Pdk
=============================================================================
