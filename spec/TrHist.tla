------------------------------- MODULE TrHist -------------------------------
(* Trace validation of the execution history.  Events:
   init j (jumps)     step a, n, pc     run a, b, pc     line a, n, pc     clear     info o     list n, o *)
EXTENDS Hist, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>
Fun(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]

Effect(c) ==
  CASE c.k = "init" -> <<[j |-> TLCEval(Fun(c.j)), h |-> << >>], 0, 0>>
    [] c.k = "step" -> LET r == TLCEval(Exec(m.j, m.h, c.a, c.n)) IN <<[m EXCEPT !.h = r[1]], r[2], c.pc>>
    [] c.k = "run" -> LET r == TLCEval(Run(m.j, m.h, c.a, c.b)) IN <<[m EXCEPT !.h = r[1]], r[2], c.pc>>
    [] c.k = "line" -> <<[m EXCEPT !.h = TLCEval(Line(@, c.a, c.n))], c.a + c.n, c.pc>>
    [] c.k = "clear" -> <<[m EXCEPT !.h = << >>], 0, 0>>
    [] c.k = "info" -> <<m, TLCEval(Info(m.h)), c.o>>
    [] c.k = "list" -> <<m, LastOf(m.h, c.n), c.o>>

Step(c) ==
  LET r == TLCEval(Effect(c))
  IN /\ m' = r[1]
     /\ bad' = IF r[2] = r[3] THEN << >> ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> r[3]]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
