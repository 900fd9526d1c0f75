-------------------------------- MODULE Dbg ---------------------------------
(* The debugger: execution control, fetch and event breakpoints, clock counting
   and user timers, over an abstract machine.

   A program P is P.c, a sequence indexed by address - P.b + 1; an entry is the
   abstract instruction that starts there:  n length, t clock ticks, op and operands x, y,
   vr / vw memory reads and writes that the instruction counts.  The driver
   assembles each abstract instruction for the simulated CPU.

   d.pc acc mem stk   machine (mem: cell name -> value, stk: return addresses)
   d.am               number of values of acc
   d.clk vf vr vw     clock ticks, fetches, counted reads and writes since reset
   d.b                breakpoints in order of their numbers
   d.nb               last breakpoint number given out
   d.tm               timers: index = id, << >> when the id is free; timer 1 is the
                      clock itself
   d.lim              time limit << unit, value >> or << >>; ends with the command   *)
EXTENDS Integers, Sequences, TLC, FiniteSets

CONSTANT Fuel                 \* bound on instructions of one command

SelSeq(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* ----------------------------------------------------------- the machine
Rdm(d, c) == d.mem[c]
\* accesses of an instruction in order, as << kind, cell >>
Accesses(i) ==
  CASE i.op = "ld" -> << <<"r", i.x>> >>
    [] i.op = "st" -> << <<"w", i.x>> >>
    [] i.op = "incm" -> << <<"r", i.x>>, <<"w", i.x>> >>
    [] i.op = "djnz" -> << <<"r", i.x>>, <<"w", i.x>> >>
    [] OTHER -> << >>

Exec(d, i) ==
  LET nx == d.pc + i.n
      b  == [d EXCEPT !.clk = IF d.tm[1].on THEN @ + i.t ELSE @, !.vf = @ + i.n, !.vr = @ + i.vr, !.vw = @ + i.vw,
                      !.tm = [k \in DOMAIN d.tm |->
                                IF d.tm[k] # << >> /\ d.tm[k].on /\ d.tm[k].ty = "any"
                                THEN [d.tm[k] EXCEPT !.v = @ + d.tm[k].dir * i.t] ELSE d.tm[k]]]
  IN CASE i.op = "nop"  -> [b EXCEPT !.pc = nx]
       [] i.op = "inc"  -> [b EXCEPT !.pc = nx, !.acc = (@ + 1) % d.am]
       [] i.op = "ld"   -> [b EXCEPT !.pc = nx, !.acc = d.mem[i.x]]
       [] i.op = "st"   -> [b EXCEPT !.pc = nx, !.mem[i.x] = d.acc]
       [] i.op = "incm" -> [b EXCEPT !.pc = nx, !.mem[i.x] = (@ + 1) % 256]
       [] i.op = "jmp"  -> [b EXCEPT !.pc = i.y]
       [] i.op = "jz"   -> [b EXCEPT !.pc = IF d.acc = 0 THEN i.y ELSE nx]
       [] i.op = "djnz" -> LET v == (d.mem[i.x] + 255) % 256
                           IN [b EXCEPT !.pc = IF v # 0 THEN i.y ELSE nx, !.mem[i.x] = v]
       [] i.op = "call" -> [b EXCEPT !.pc = i.y, !.stk = Append(@, nx)]
       [] i.op = "ret"  -> [b EXCEPT !.pc = d.stk[Len(d.stk)], !.stk = SubSeq(@, 1, Len(@) - 1)]

\* ----------------------------------------------------------- breakpoints
CondTrue(d, c) ==
  IF c = << >> THEN TRUE
  ELSE LET v == IF c[1] = "acc" THEN d.acc ELSE d.mem[c[1]]
       IN CASE c[2] = "=" -> v = c[3] [] c[2] = "<" -> v < c[3] [] c[2] = ">" -> v > c[3]
            [] c[2] = "#" -> v # c[3] [] c[2] = "&" -> (v % (2 * c[3])) >= c[3]

\* breakpoint number i is hit: [d, yes]; it is accepted when its hit count runs out
\* (the count then starts again) and its condition holds
Hit(d, i, cd) ==
  LET bp == d.b[i]
  IN IF bp.cnt - 1 > 0 THEN [d |-> [d EXCEPT !.b[i].cnt = bp.cnt - 1], yes |-> FALSE]
     ELSE [d |-> [d EXCEPT !.b[i].cnt = bp.hit], yes |-> CondTrue(cd, bp.cond)]

FetchAt(d, a) == {i \in DOMAIN d.b : d.b[i].k = "f" /\ d.b[i].a = a}
HasFetch(d, a) == FetchAt(d, a) # {}
Remove(d, i) == [d EXCEPT !.b = SelSeq(@, i)]

\* accesses acc[k..] of one instruction hit the event breakpoints; conditions are
\* evaluated while the instruction executes (cd)
RECURSIVE EvHits(_, _, _, _, _, _)
EvHits(d, cd, acc, k, i, ev) ==
  IF k > Len(acc) THEN [d |-> d, ev |-> ev]
  ELSE IF i > Len(d.b) THEN EvHits(d, cd, acc, k + 1, 1, ev)
  ELSE IF d.b[i].k = acc[k][1] /\ d.b[i].a = acc[k][2]
       THEN LET h == Hit(d, i, cd)
            IN EvHits(h.d, cd, acc, k, i + 1, IF h.yes THEN Append(ev, d.b[i].nr) ELSE ev)
       ELSE EvHits(d, cd, acc, k, i + 1, ev)

NewNr(d) == IF d.nb = 0 \/ d.b = << >> THEN 1 ELSE d.nb + 1
AddBrk(d, k, a, hit, perm, cond) ==
  LET n == NewNr(d)
  IN [d EXCEPT !.nb = n, !.b = Append(@, [nr |-> n, k |-> k, a |-> a, hit |-> hit, cnt |-> hit,
                                          perm |-> perm, cond |-> cond, cmd |-> ""])]

\* ------------------------------------------------------------- execution
Reached(d) ==
  d.lim # << >> /\ d.lim[2] # 0 /\
  (CASE d.lim[1] = "clk" -> d.clk [] d.lim[1] = "fclk" -> d.vf
     [] d.lim[1] = "rclk" -> d.vr [] d.lim[1] = "wclk" -> d.vw
     [] d.lim[1] = "vclk" -> d.vf + d.vr + d.vw) >= d.lim[2]

\* commands attached to the fetch breakpoint at the address where execution stopped
CmdsAt(d) == LET s == FetchAt(d, d.pc) IN IF s = {} THEN "" ELSE d.b[Min(s)].cmd

RemoveDel(d, ev) == [d EXCEPT !.b = SelectSeq(@, LAMBDA x :
                        ~(x.perm = "del" /\ \E j \in DOMAIN ev : ev[j] = x.nr))]
EvOf(d, ev) == [j \in DOMAIN ev |-> LET x == d.b[CHOOSE i \in DOMAIN d.b : d.b[i].nr = ev[j]] IN <<x.k, x.a>>]
EvCmds(d, ev) == {d.b[i].cmd : i \in {j \in DOMAIN d.b : \E k \in DOMAIN ev : ev[k] = d.b[j].nr}} \ {""}

Stopped(d, why, ev, cmds, t0) == [d |-> [d EXCEPT !.lim = << >>], why |-> why, ev |-> ev, cmds |-> cmds, ticks |-> d.clk - t0]

RECURSIVE Go(_, _, _, _, _)
Go(P, d, done, todo, t0) ==
  LET s == FetchAt(d, d.pc)
      h == IF done > 0 /\ s # {} THEN Hit(d, Min(s), d) ELSE [d |-> d, yes |-> FALSE]
  IN IF done > Fuel THEN Stopped(d, "fuel", {}, {}, t0)
     ELSE IF h.yes
     THEN LET d1 == IF h.d.b[Min(s)].perm = "del" THEN Remove(h.d, Min(s)) ELSE h.d
          IN Stopped(d1, "brk", {}, {CmdsAt(d1)} \ {""}, t0)
     ELSE LET i  == P.c[d.pc - P.b + 1]
              e  == EvHits(h.d, h.d, Accesses(i), 1, 1, << >>)
              d1 == Exec(e.d, i)
              lr == Reached(d1)
              d2 == d1
          IN IF e.ev # << >>
             THEN Stopped(RemoveDel(d2, e.ev), "event", {EvOf(d2, e.ev)[j] : j \in DOMAIN e.ev}, EvCmds(d2, e.ev), t0)
             ELSE IF todo > 0 /\ done + 1 >= todo THEN Stopped(d2, "step", {}, {}, t0)
             ELSE IF lr THEN Stopped(d2, "brk", {}, {CmdsAt(d2)} \ {""}, t0)
             ELSE Go(P, d2, done + 1, todo, t0)

NoStop(d) == [d |-> d, why |-> "", ev |-> {}, cmds |-> {}, ticks |-> 0, msg |-> << >>]
Msg(d, m) == [NoStop(d) EXCEPT !.msg = m]
Ran(r, m) == r @@ [msg |-> m]

\* -------------------------------------------------------------- commands
\* Cmd(P, d, c) = [d, why, ev, cmds, ticks, msg]
RECURSIVE ClearAll(_, _, _)
ClearAll(d, as, m) ==
  IF as = << >> THEN Msg(d, m)
  ELSE IF HasFetch(d, as[1]) THEN ClearAll(Remove(d, Min(FetchAt(d, as[1]))), Tail(as), m)
  ELSE ClearAll(d, Tail(as), Append(m, <<"nobp", as[1]>>))

NrIdx(d, n) == {i \in DOMAIN d.b : d.b[i].nr = n}
RECURSIVE DelAll(_, _, _)
DelAll(d, ns, m) ==
  IF ns = << >> THEN Msg(d, m)
  ELSE IF NrIdx(d, ns[1]) # {} THEN DelAll(Remove(d, Min(NrIdx(d, ns[1]))), Tail(ns), m)
  ELSE DelAll(d, Tail(ns), Append(m, <<"error", 0>>))

\* 1/100 s takes xc clocks
Limit(d, u, n, xc) ==
  CASE u = "clk" -> d.clk + n [] u = "us" -> d.clk + (n * xc) \div 10000 [] u = "ms" -> d.clk + (n * xc) \div 10 [] u = "fclk" -> d.vf + n [] u = "rclk" -> d.vr + n
    [] u = "wclk" -> d.vw + n [] u = "vclk" -> d.vf + d.vr + d.vw + n

FreeTimer(d) == LET S == {i \in DOMAIN d.tm : d.tm[i] = << >>}
                IN IF S = {} THEN Len(d.tm) + 1 ELSE Min(S)
TimerIds(d, nm) == {i \in DOMAIN d.tm : d.tm[i] # << >> /\ (d.tm[i].nm = nm \/ nm = i)}
PutTimer(d, i, r) == [d EXCEPT !.tm = [k \in 1 .. (IF i > Len(@) THEN i ELSE Len(@)) |->
                                          IF k = i THEN r ELSE IF k <= Len(d.tm) THEN d.tm[k] ELSE << >>]]
TheTimer(d, c) == IF c.id > 0 THEN {i \in DOMAIN d.tm : i = c.id /\ d.tm[i] # << >>}
                  ELSE {i \in DOMAIN d.tm : d.tm[i] # << >> /\ d.tm[i].nm = c.nm}

Cmd(P, d, c) ==
  CASE c.k = "break" ->
         IF c.hit > 99999 THEN Msg(d, << <<"toobig", c.hit>> >>)
         ELSE IF HasFetch(d, c.a) THEN Msg(d, << <<"dup", c.a>> >>)
         ELSE Msg(AddBrk(d, "f", c.a, c.hit, c.perm, c.cond), << <<"set", NewNr(d), c.a>> >>)
    [] c.k = "evbreak" -> NoStop(AddBrk(d, c.ek, c.a, c.hit, c.perm, c.cond))
    [] c.k = "cbreak" ->          \* a cell: both of its events
         NoStop(AddBrk(AddBrk(d, "r", c.a, c.hit, c.perm, c.cond), "w", c.a, c.hit, c.perm, c.cond))
    [] c.k = "clear"  -> IF c.as # << >> THEN ClearAll(d, c.as, << >>)
                         ELSE IF HasFetch(d, d.pc) THEN NoStop(Remove(d, Min(FetchAt(d, d.pc))))
                         ELSE Msg(d, << <<"nobphere", 0>> >>)
    [] c.k = "delete" -> IF c.ns = << >> THEN NoStop([d EXCEPT !.b = << >>]) ELSE DelAll(d, c.ns, << >>)
    [] c.k = "commands" -> IF NrIdx(d, c.nr) = {} THEN Msg(d, << <<"nobpnr", c.nr>> >>)
                           ELSE NoStop([d EXCEPT !.b[Min(NrIdx(d, c.nr))].cmd = c.cmd])
    [] c.k = "run" ->
         IF c.as = << >> THEN Ran(Go(P, d, 0, 0, d.clk), << >>)
         ELSE LET d1 == [d EXCEPT !.pc = c.as[1]]
              IN IF Len(c.as) = 1 THEN Ran(Go(P, d1, 0, 0, d.clk), << >>)
                 ELSE IF c.as[1] = c.as[2] THEN Msg(d1, << <<"same", 0>> >>)
                 ELSE LET d2 == IF HasFetch(d1, c.as[2]) THEN d1 ELSE AddBrk(d1, "f", c.as[2], 1, "del", << >>)
                      IN Ran(Go(P, d2, 0, 0, d.clk), << >>)
    [] c.k = "step" ->
         IF c.unit = "" THEN Ran(Go(P, d, 0, IF c.n <= 0 THEN 1 ELSE c.n, d.clk), << >>)
         ELSE Ran(Go(P, [d EXCEPT !.lim = <<IF c.unit \in {"us", "ms"} THEN "clk" ELSE c.unit, Limit(d, c.unit, c.n, P.xc)>>], 0, 0, d.clk), << >>)
    [] c.k = "next" ->
         LET i == P.c[d.pc - P.b + 1]
         IN IF i.op # "call" THEN Ran(Go(P, d, 0, 1, d.clk), << >>)
            ELSE LET nx == d.pc + i.n
                     d1 == IF HasFetch(d, nx) THEN d ELSE AddBrk(d, "f", nx, 1, "del", << >>)
                 IN Ran(Go(P, d1, 0, 0, d.clk), << >>)
    [] c.k = "pc" -> NoStop([d EXCEPT !.pc = c.a])
    [] c.k = "acc" -> NoStop([d EXCEPT !.acc = c.a])
    [] c.k = "poke" -> NoStop([d EXCEPT !.mem[c.a] = c.v])
    [] c.k = "reset" -> NoStop([d EXCEPT !.pc = 0, !.acc = 0, !.stk = << >>, !.clk = 0, !.vf = 0, !.vr = 0, !.vw = 0,
                                         !.tm = [k \in DOMAIN @ |-> IF k <= 4 THEN [d.tm[k] EXCEPT !.v = 0] ELSE d.tm[k]]])
    [] c.k = "tadd" -> IF TheTimer(d, c) # {} THEN Msg(d, << <<"texists", 0>> >>)
                       ELSE NoStop(PutTimer(d, IF c.id > 0 THEN c.id ELSE FreeTimer(d),
                                            [nm |-> c.nm, on |-> TRUE, ty |-> c.ty, v |-> 0,
                                             dir |-> IF c.dir >= 0 THEN 1 ELSE -1, user |-> TRUE]))
    [] c.k = "tdel" -> IF TheTimer(d, c) = {} THEN Msg(d, << <<"tnone", 0>> >>)
                       ELSE LET i == Min(TheTimer(d, c))
                            IN IF ~d.tm[i].user THEN Msg(d, << <<"tnotuser", 0>> >>)
                               ELSE NoStop([d EXCEPT !.tm[i] = << >>])
    [] c.k = "tset" -> IF TheTimer(d, c) = {} THEN Msg(d, << <<"tnone", 0>> >>)
                       ELSE LET i == Min(TheTimer(d, c))
                            IN NoStop([d EXCEPT !.tm[i].v = c.v, !.clk = IF i = 1 THEN c.v ELSE @])
    [] c.k = "trun" -> IF TheTimer(d, c) = {} THEN Msg(d, << <<"tnone", 0>> >>)
                       ELSE NoStop([d EXCEPT !.tm[Min(TheTimer(d, c))].on = c.on])
=============================================================================
