------------------------------- MODULE TrWdt --------------------------------
(* Trace validation of the watchdog.  Events: pc a; sp a; nops n; ins a, b, c, v, md; reset.  o: <<pc, sp, count>> *)
EXTENDS Wdt, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, d, bad
vars == <<s, l, d, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ d = Fresh

Effect(c) ==
  CASE c.k = "sp" -> [d EXCEPT !.sp = c.a]
    [] c.k = "nops" -> Nops([d EXCEPT !.pc = c.a], c.n)
    [] c.k = "ins" -> Ins([d EXCEPT !.pc = c.a], c.a, c.b, c.c, c.v, c.md)
    [] c.k = "reset" -> Fresh

Step(c) ==
  LET x == TLCEval(Effect(c)) e == <<x.pc, x.sp, x.w>>
  IN /\ d' = x
     /\ bad' = IF e = c.o THEN << >> ELSE <<[session |-> s, case |-> l, expected |-> e, observed |-> c.o, before |-> d]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >> /\ Inv(d)
=============================================================================
