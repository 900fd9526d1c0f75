------------------------------- MODULE TrVcd -------------------------------
(* Trace validation of value change dumps.  Events:
   init  cells, number n of dumpers; k clock length in ns
   add, del  d, x     lim d, ns     start, pause, resume d     stop d, f (the file)     shift d, ns
   input d, vs, ev    brk d
   w     c, v: write on the console      ins  op, c, v, b: executed instruction, t1: clocks after it
   tick  t1           peek c, v: seen value
   run   n instructions run with t1 clocks before; every one takes k * len ns; cnt: executed until the stop *)
EXTENDS Vcd, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>

Get(q, k) == LET i == CHOOSE i \in DOMAIN q : q[i][1] = k IN q[i][2]
Fun(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> Get(q, k)]

\* instructions of a run: <<state, executed>>
RECURSIVE Run(_, _, _, _)
Run(x, n, len, i) ==
  IF i = n THEN <<x, i>>
  ELSE LET y == TLCEval(Pass(x, x.t + len))
       IN IF y.brk THEN <<[y EXCEPT !.brk = FALSE], i + 1>> ELSE Run(y, n, len, i + 1)

\* <<state, expected, observed>>
Effect(c) ==
  CASE c.k = "init" -> <<[t |-> 0, k |-> c.ns, cv |-> Fun(c.cells), d |-> [i \in 1 .. c.n |-> Fresh], brk |-> FALSE], 0, 0>>
    [] c.k = "add" -> <<[m EXCEPT !.d[c.d] = Add(@, c.x)], 0, 0>>
    [] c.k = "del" -> <<[m EXCEPT !.d[c.d] = Del(@, c.x)], 0, 0>>
    [] c.k = "lim" -> <<[m EXCEPT !.d[c.d].lim = c.ns], 0, 0>>
    [] c.k = "start" -> <<[m EXCEPT !.d[c.d] = Start(@, m.cv, m.t)], 0, 0>>
    [] c.k = "pause" -> <<[m EXCEPT !.d[c.d] = Pause(@, m.cv, m.t)], 0, 0>>
    [] c.k = "resume" -> <<[m EXCEPT !.d[c.d] = Resume(@, m.cv, m.t)], 0, 0>>
    [] c.k = "shift" -> <<[m EXCEPT !.d[c.d] = Shift(@, c.ns)], 0, 0>>
    [] c.k = "input" -> <<[m EXCEPT !.d[c.d].mode = "in", !.d[c.d].ivars = c.vs, !.d[c.d].file = c.ev], 0, 0>>
    [] c.k = "brk" -> <<[m EXCEPT !.d[c.d].brk = ~@], 0, 0>>
    [] c.k = "stop" ->
         LET d == m.d[c.d] IN
         <<[m EXCEPT !.d[c.d] = Stop(@)],
           IF d.mode = "out" /\ d.st # "off" THEN (IF SameFile(d, c.f) THEN 0 ELSE <<d.rv, d.base>>) ELSE 0,
           IF d.mode = "out" /\ d.st # "off" THEN (IF SameFile(d, c.f) THEN 0 ELSE c.f) ELSE 0>>
    [] c.k = "w" -> <<Write(m, c.c, c.v, m.t, m.t), 0, 0>>
    [] c.k = "ins" ->
         LET t1 == c.t1 * m.k
         IN <<Pass(IF c.op = "nop" THEN m ELSE Write(m, c.c, NewVal(c.op, m.cv[c.c], c.v, c.b), m.t, t1), t1), 0, 0>>
    [] c.k = "tick" -> <<Pass(m, c.t1 * m.k), 0, 0>>
    [] c.k = "peek" -> <<m, m.cv[c.c], c.v>>
    [] c.k = "run" -> LET x == TLCEval(Run(m, c.n, c.len * m.k, 0)) IN <<x[1], x[2], c.cnt>>

Step(c) ==
  LET r == TLCEval(Effect(c))
  IN /\ m' = r[1]
     /\ bad' = IF r[2] = r[3] THEN << >> ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> r[3]]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
