------------------------------ MODULE TrSimIf -------------------------------
(* Trace validation of the simulator interface.  Events:
   init  cells, version, help texts
   w     a, v: the program writes; k instructions are left to a self jump; adr of the write, pc after
   r     a: the program reads; v
   cw    a, v: written on the console, then read: got
   cr    a: read on the console: got
   run   a program of n NOPs, a write of v, m NOPs and a self jump is run from pc0: pc, msg
   at    the interface is moved to a     fin  new input file b     fout  new output file (open: there is one)
   close contents of the output file
   Observed with every event: con, the characters printed *)
EXTENDS SimIf, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>

Get(q, k) == LET i == CHOOSE i \in DOMAIN q : q[i][1] = k IN q[i][2]
Fun(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> Get(q, k)]
Min(a, b) == IF a < b THEN a ELSE b

\* <<state, expected, observed>>
Effect(c) ==
  IF c.k = "init"
  THEN <<[cv |-> Fun(c.cells), at |-> -1, act |-> 0, par |-> << >>, ans |-> << >>, wait |-> FALSE, fin |-> << >>, fout |-> << >>,
          open |-> FALSE, lim |-> <<0, 0, 0, 0>>, newlim |-> FALSE, con |-> << >>, stop |-> FALSE, rst |-> FALSE,
          ver |-> c.ver, desc |-> Fun(c.desc)], << >>, << >>>>
  ELSE
  LET st == Idle(m) IN
  CASE c.k = "w" ->
         LET x == TLCEval(Write(st, c.a, c.v))
             n == Limit(x)
             pc == IF x.rst THEN 0
                   ELSE IF x.newlim /\ n > 0 THEN c.next + Min(c.left, n - 1)   \* counting restarts with this instruction
                   ELSE c.next
         IN <<x, pc, c.pc>>
    [] c.k = "r" -> LET x == TLCEval(Read(st, c.a)) IN <<x[2], x[1], c.v>>
    [] c.k = "cw" -> LET y == TLCEval(Write(st, c.a, c.v)) x == TLCEval(Read(y, c.a)) IN <<x[2], x[1], c.got>>
    [] c.k = "cr" -> LET x == TLCEval(Read(st, c.a)) IN <<x[2], x[1], c.got>>
    [] c.k = "run" ->
         LET n == Limit(st)
             x == TLCEval(Write(st, c.a, c.v))
             left == IF x.newlim /\ Limit(x) > 0 THEN Limit(x) - 1              \* counting restarts with the write
                     ELSE IF n > 0 THEN n - c.n - 1 ELSE c.m
         IN IF n > 0 /\ n <= c.n THEN <<st, c.pc0 + n, c.pc>>                   \* limit before the write
            ELSE IF x.stop THEN <<x, c.next, c.pc>>
            ELSE <<x, c.next + Min(c.m, left), c.pc>>                            \* at the latest at the self jump
    [] c.k = "at" -> <<[st EXCEPT !.at = c.a], << >>, << >>>>
    [] c.k = "fin" -> <<[st EXCEPT !.fin = c.b], << >>, << >>>>
    [] c.k = "fout" -> <<[st EXCEPT !.fout = << >>, !.open = c.open], << >>, << >>>>
    [] c.k = "close" -> <<[st EXCEPT !.fout = << >>, !.open = FALSE], st.fout, c.b>>

Step(c) ==
  LET r == TLCEval(Effect(c))
  IN /\ m' = r[1]
     /\ bad' = IF r[2] = r[3] /\ c.con = r[1].con THEN << >>
               ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> r[3], print |-> <<r[1].con, c.con>>]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
