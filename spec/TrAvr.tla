------------------------------ MODULE TrAvr -------------------------------
EXTENDS IsaTrace, Avr
=============================================================================
