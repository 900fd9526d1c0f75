------------------------------ MODULE TrErrors ------------------------------
(* Trace validation of error classes.  Events:
   init cpu, lim, sp     set n, v     show rep     lim v     sp v     roll v (STM8)
   run  q (instructions), max (0: to the end), o: [pc, sp, stop, msg] *)
EXTENDS Errors, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>

Effect(c) ==
  CASE c.k = "init" -> <<[own |-> TLCEval(InitOwn), cpu |-> c.cpu, lim |-> c.lim, sp |-> c.sp, roll |-> TRUE], 0, 0>>
    [] c.k = "set" -> <<[m EXCEPT !.own = TLCEval(SetOwn(@, c.n, c.v))], 0, 0>>
    [] c.k = "show" -> <<m, Report(m.own), c.rep>>
    [] c.k = "lim" -> <<[m EXCEPT !.lim = c.v], 0, 0>>
    [] c.k = "sp" -> <<[m EXCEPT !.sp = c.v], 0, 0>>
    [] c.k = "roll" -> <<[m EXCEPT !.roll = c.v = 1], 0, 0>>
    [] c.k = "run" -> LET r == TLCEval(Run(m.own, m.cpu, m.roll, m.lim, c.q, 1, m.sp, IF c.max = 0 THEN 1000 ELSE c.max))
                      IN <<[m EXCEPT !.sp = r.sp], r, c.o>>

Step(c) ==
  LET r == TLCEval(Effect(c))
  IN /\ m' = r[1]
     /\ bad' = IF r[2] = r[3] THEN << >> ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> r[3]]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
