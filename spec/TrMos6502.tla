------------------------------ MODULE TrMos6502 -------------------------------
EXTENDS IsaTrace, Mos6502
=============================================================================
