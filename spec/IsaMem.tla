------------------------------- MODULE IsaMem -------------------------------
(* Memory of a simulated machine.  An address is space * 2^20 + offset.
   m.b : initial fill value of each space;  m.o : every cell known to differ;
   m.w : addresses written since the start of the current instruction. *)
EXTENDS Bits

SPC == 1048576
Rd(m, a) == IF a \in DOMAIN m.o THEN m.o[a] ELSE m.b[(a \div SPC) + 1]
Wr(m, a, v) == [m EXCEPT !.o = (a :> v) @@ @, !.w = Append(@, a)]
Wr2(m, a1, v1, a2, v2) == Wr(Wr(m, a1, v1), a2, v2)
=============================================================================
