------------------------------- MODULE MCDbg --------------------------------
(* Exhaustive exploration of the debugger specification over one small program
   (loop, subroutine, memory accesses) and every history of a small set of
   commands; the guarantees of the properties are invariants. *)
EXTENDS Dbg
CONSTANTS Depth
VARIABLES d, n, r           \* machine + debugger, commands given, result of the last command

I(op, len, t, x, y) == [n |-> len, t |-> t, op |-> op, x |-> x, y |-> y, vr |-> 0, vw |-> 0]
Prog == [b |-> 0, xc |-> 100, c |-> << I("nop", 1, 1, "", 0), I("incm", 1, 1, "m", 0), I("call", 1, 2, "", 5), I("ld", 1, 1, "m", 0),
                           I("jmp", 1, 2, "", 0), I("inc", 1, 1, "", 0), I("ret", 1, 2, "", 0) >>]
Brk(a, h, p) == [k |-> "break", a |-> a, hit |-> h, cond |-> << >>, perm |-> p]
Cmds == { Brk(3, 1, "keep"), Brk(4, 2, "keep"), Brk(5, 1, "del"),
          [k |-> "evbreak", ek |-> "w", a |-> "m", hit |-> 2, cond |-> << >>, perm |-> "keep"],
          [k |-> "evbreak", ek |-> "r", a |-> "m", hit |-> 1, cond |-> <<"acc", ">", 1>>, perm |-> "del"],
          [k |-> "delete", ns |-> <<1>>], [k |-> "clear", as |-> <<3>>],
          [k |-> "step", n |-> 1, unit |-> ""], [k |-> "step", n |-> 3, unit |-> ""],
          [k |-> "step", n |-> 4, unit |-> "clk"], [k |-> "next"], [k |-> "pc", a |-> 0],
          [k |-> "tadd", id |-> 0, nm |-> "u", dir |-> -1, ty |-> "any"], [k |-> "trun", id |-> 0, nm |-> "u", on |-> FALSE] }
Run == [k |-> "run", as |-> << >>]
Sentinel == Brk(0, 3, "keep")

Timer(nm) == [nm |-> nm, on |-> TRUE, ty |-> IF nm = "time" THEN "any" ELSE nm, v |-> 0, dir |-> 1, user |-> FALSE]
Init == /\ d = [pc |-> 0, acc |-> 0, am |-> 256, mem |-> [m |-> 0], stk |-> << >>, clk |-> 0, vf |-> 0, vr |-> 0, vw |-> 0,
                b |-> << >>, nb |-> 0, lim |-> << >>, tm |-> <<Timer("time"), Timer("isr"), Timer("idle"), Timer("halt")>>]
        /\ n = 0
        /\ r = << >>

Legal(c) == IF c.k = "pc" THEN d.stk = << >> ELSE TRUE
Next == /\ n < Depth
        /\ n' = n + 1
        /\ \/ \E c \in Cmds : Legal(c) /\ LET x == Cmd(Prog, IF c.k \in {"next", "step"} THEN Cmd(Prog, d, Sentinel).d ELSE d, c)
                                          IN d' = x.d /\ r' = [c |-> c, before |-> d, x |-> x]
           \/ LET x == Cmd(Prog, Cmd(Prog, d, Sentinel).d, Run)
              IN d' = x.d /\ r' = [c |-> Run, before |-> d, x |-> x]

\* one instruction at a time, without breakpoints
Bare(e) == [e EXCEPT !.b = << >>, !.lim = << >>]
RECURSIVE Steps(_, _)
Steps(e, k) == IF k = 0 THEN e ELSE Steps(Exec(e, Prog.c[e.pc + 1]), k - 1)
Mach(e) == <<e.pc, e.acc, e.mem, e.stk, e.clk, e.tm>>

Ran_ == r # << >> /\ r.x.why # ""
\* whatever stopped it, an execution command leaves the state of executing some number of
\* instructions one by one, and step n never more than n
Slicing ==
  Ran_ => \E k \in 0 .. 40 : /\ Mach(d) = Mach(Steps(Bare(r.before), k))
                             /\ (r.c.k = "step" /\ r.c.unit = "" => k <= r.c.n)
                             /\ (r.x.why = "step" /\ r.c.k = "step" => k = r.c.n)
Terminates == r # << >> => r.x.why # "fuel"
\* a breakpoint stop is at a breakpoint, an event stop after an access to its cell
StopSite ==
  Ran_ => CASE r.x.why = "brk" -> \/ \E i \in DOMAIN r.before.b : r.before.b[i].k = "f" /\ r.before.b[i].a = d.pc
                                  \/ d.pc = 0 \/ r.c.k \in {"next", "step"}
            [] r.x.why = "event" -> r.x.ev # {} /\ \A e \in r.x.ev : e[2] = "m"
            [] OTHER -> TRUE
\* a permanent breakpoint with hit count one stops every run that reaches it
NoMiss ==
  (Ran_ /\ \E i \in DOMAIN r.before.b : LET b == r.before.b[i] IN
                /\ b.k = "f" /\ b.perm = "keep" /\ b.hit = 1 /\ b.cond = << >>
                /\ b.a = 3) =>
     \A k \in 1 .. 40 : (Mach(d) = Mach(Steps(Bare(r.before), k)) /\ (\A j \in 0 .. k - 1 : Mach(Steps(Bare(r.before), j)) # Mach(d)))
                          => \A j \in 1 .. k - 1 : Steps(Bare(r.before), j).pc # 3
TempGone == Ran_ /\ r.x.why = "brk" => ~ \E i \in DOMAIN d.b : d.b[i].k = "f" /\ d.b[i].perm = "del" /\ d.b[i].a = d.pc /\ r.c.k = "run"
Numbers == \A i, j \in DOMAIN d.b : i < j => d.b[i].nr < d.b[j].nr
Counts == \A i \in DOMAIN d.b : d.b[i].cnt \in 1 .. d.b[i].hit
Clock == d.clk = d.tm[1].v
UserTimer == \A i \in DOMAIN d.tm : d.tm[i] # << >> /\ d.tm[i].dir = -1 => d.tm[i].v <= 0 /\ d.tm[i].v >= -d.clk
=============================================================================
