------------------------------- MODULE TrDbg --------------------------------
(* Every command of a recorded console session must have the effect and the
   answer the debugger specification gives it. *)
EXTENDS Dbg, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, d, bad
vars == <<s, l, d, bad>>

Tbl == <<"any", "isr", "idle", "halt">>
Init == /\ s \in 1 .. Len(Sessions)
        /\ l = 1
        /\ bad = << >>
        /\ LET h == Sessions[s]
           IN d = [pc |-> h.pc, acc |-> h.acc, am |-> h.am, mem |-> h.mem, stk |-> << >>, clk |-> h.clk, vf |-> h.vf,
                   vr |-> h.vr, vw |-> h.vw, b |-> << >>, nb |-> 0, lim |-> << >>,
                   tm |-> [i \in 1 .. 4 |-> [nm |-> <<"time", "isr", "idle", "halt">>[i], on |-> TRUE, ty |-> Tbl[i],
                                             v |-> IF i = 1 THEN h.clk ELSE 0, dir |-> 1, user |-> FALSE]]]

ToSet(q) == {q[i] : i \in DOMAIN q}

\* difference between the specification's result x and the observation o
Diff(x, o) ==
  LET e == x.d
      f(name, want, got) == IF want = got THEN {} ELSE {<<name, "expected", want, "observed", got>>}
      why == CASE x.why = "brk" -> 104 [] x.why = "step" -> 109 [] x.why = "event" -> 112 [] x.why = "" -> 0 [] OTHER -> -1
  IN UNION {
      f("stop reason", why, o.why),
      IF x.why # "" THEN f("stop address", e.pc, o.at) ELSE {},
      IF x.why = "step" THEN f("step ticks", x.ticks, o.ticks) ELSE {},
      f("events", x.ev, ToSet(o.ev)),
      f("commands", x.cmds, ToSet(o.cmds)),
      f("messages", x.msg, o.msg),
      f("pc", e.pc, o.pc), f("acc", e.acc, o.acc),
      {<<"cell", c, "expected", e.mem[c], "observed", o.mem[c]>> : c \in {c \in DOMAIN e.mem : e.mem[c] # o.mem[c]}},
      f("breakpoints", [i \in DOMAIN e.b |-> <<e.b[i].nr, e.b[i].k, e.b[i].perm, e.b[i].hit, e.b[i].cnt, IF e.b[i].k = "f" THEN ToString(e.b[i].a) ELSE e.b[i].a>>], o.b),
      f("counters", SubSeq(<<e.clk, e.vf, e.vr, e.vw>>, 1, Len(o.ctr)), o.ctr),
      IF o.tm = << >> THEN {} ELSE
      f("timers", {<<i, e.tm[i].nm, e.tm[i].on, e.tm[i].ty, e.tm[i].v, e.tm[i].v>> :
                     i \in {j \in DOMAIN e.tm : e.tm[j] # << >>}}, ToSet(o.tm)) }

Next ==
  /\ bad = << >>
  /\ l <= Len(Sessions[s].cases)
  /\ l' = l + 1 /\ s' = s
  /\ LET c == Sessions[s].cases[l]
         x == Cmd([b |-> Sessions[s].base, c |-> Sessions[s].prog, xc |-> Sessions[s].xc], d, c)
         df == Diff(x, c.o)
     IN /\ d' = x.d
        /\ bad' = IF df = {} THEN << >> ELSE << [session |-> s, case |-> l, diff |-> df, from |-> [d EXCEPT !.mem = << >>]] >>

Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
