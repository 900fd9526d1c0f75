------------------------------ MODULE TrST7 ------------------------------
EXTENDS IsaTrace, ST7
=============================================================================
