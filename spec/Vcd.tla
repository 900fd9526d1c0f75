-------------------------------- MODULE Vcd --------------------------------
(* Value change dumps (docs/vcd.html).  Several dumpers work at the same time:
   an output records, from start to stop, every write of the cells and bit fields it
   watches with the time of the write; an input applies the changes of a file when their
   time has come.  Times are in ns, t is the time of the simulator.

   Output: st "off" / "on" / "pause"; base is the time the file counts from (moved when a
   pause longer than the limit lim ends: the rest of the pause does not exist in the file);
   pt the time of the pause; vars the watched fields [c, hi, lo]; rv the fields of the
   current file with what must be recorded: log, a sequence of [lo, hi, v]: value v (-1:
   unknown) at a time of the file between lo and hi (an instruction writes while it executes).
   Input: ev the changes not yet applied <<time, variable, value>>; ivars its variables. *)
EXTENDS Integers, Sequences, Bits

Field(v, hi, lo) == (v \div Pow2(lo)) % Pow2(hi - lo + 1)
Put(old, v, hi, lo) == LET w == Pow2(hi - lo + 1)
                       IN (old % Pow2(lo)) + ((v % w) * Pow2(lo)) + ((old \div Pow2(hi + 1)) * Pow2(hi + 1))

Fresh == [mode |-> "out", st |-> "off", vars |-> << >>, rv |-> << >>, base |-> 0, pt |-> 0, lim |-> -1,
          file |-> << >>, ev |-> << >>, ivars |-> << >>, off |-> 0, brk |-> FALSE]

Log(rv, what(_), lo, hi) ==
  TLCEval([i \in DOMAIN rv |-> IF rv[i].live THEN [rv[i] EXCEPT !.log = Append(@, [lo |-> lo, hi |-> hi, v |-> what(rv[i])])] ELSE rv[i]])

\* all live fields with their current values (unknown when un)
Snap(d, cv, t, un) ==
  LET what(f) == IF un THEN -1 ELSE Field(cv[f.c], f.hi, f.lo) IN [d EXCEPT !.rv = Log(@, what, t - d.base, t - d.base)]

\* cell c gets v between lo and hi
Note(d, c, v, lo, hi) ==
  IF d.mode # "out" \/ d.st # "on" THEN d
  ELSE [d EXCEPT !.rv = TLCEval([i \in DOMAIN d.rv |->
         LET x == d.rv[i]
         IN IF x.live /\ x.c = c THEN [x EXCEPT !.log = Append(@, [lo |-> lo - d.base, hi |-> hi - d.base, v |-> Field(v, x.hi, x.lo)])]
            ELSE x])]
Write(m, c, v, lo, hi) == [m EXCEPT !.cv[c] = v, !.d = TLCEval([i \in DOMAIN m.d |-> Note(m.d[i], c, v, lo, hi)])]

Has(vs, x) == \E i \in DOMAIN vs : vs[i].c = x.c /\ vs[i].hi = x.hi /\ vs[i].lo = x.lo
Add(d, x) == IF d.st # "off" \/ Has(d.vars, x) THEN d ELSE [d EXCEPT !.vars = Append(@, x)]
Del(d, x) ==
  LET keep(f) == ~(f.c = x.c /\ f.hi = x.hi /\ f.lo = x.lo)
  IN [d EXCEPT !.vars = SelectSeq(@, keep),
               !.rv = TLCEval([i \in DOMAIN d.rv |-> IF keep(d.rv[i]) THEN d.rv[i] ELSE [d.rv[i] EXCEPT !.live = FALSE]])]

Start(d, cv, t) ==
  IF d.st # "off" THEN d
  ELSE IF d.mode = "out"
  THEN Snap([d EXCEPT !.st = "on", !.base = t,
                      !.rv = [i \in DOMAIN d.vars |-> [c |-> d.vars[i].c, hi |-> d.vars[i].hi, lo |-> d.vars[i].lo, live |-> TRUE, log |-> << >>]]],
            cv, t, FALSE)
  ELSE [d EXCEPT !.st = "on", !.base = t + d.off, !.ev = d.file]
Pause(d, cv, t) ==
  IF d.st # "on" THEN d
  ELSE IF d.mode = "out" THEN Snap([d EXCEPT !.st = "pause", !.pt = t], cv, t, TRUE) ELSE [d EXCEPT !.st = "pause", !.pt = t]
Min(a, b) == IF a < b THEN a ELSE b
Resume(d, cv, t) ==
  IF d.st # "pause" THEN d
  ELSE IF d.mode = "out"
  THEN Snap([d EXCEPT !.st = "on", !.base = @ + ((t - d.pt) - (IF d.lim >= 0 THEN Min(t - d.pt, d.lim) ELSE t - d.pt))], cv, t, FALSE)
  ELSE [d EXCEPT !.st = "on", !.base = @ + (t - d.pt)]
Stop(d) == [d EXCEPT !.st = "off", !.off = 0, !.rv = << >>]
\* the time of the events moves by x
Shift(d, x) == IF d.st = "off" THEN [d EXCEPT !.off = @ + x] ELSE [d EXCEPT !.base = @ + x]

\* input d applies the changes whose time has come
RECURSIVE Apply(_, _, _)
Due(d, t) == d.mode = "in" /\ d.st = "on" /\ d.ev # << >> /\ d.base + d.ev[1][1] < t
Apply(m, i, t) ==
  LET d == m.d[i] IN
  IF ~Due(d, t) THEN m
  ELSE LET e == d.ev[1]
           f == d.ivars[e[2]]
           y == [m EXCEPT !.d[i].ev = Tail(@), !.brk = @ \/ (d.brk /\ e[2] # 0)]
       IN Apply(TLCEval(IF e[2] = 0 THEN y ELSE Write(y, f.c, Put(m.cv[f.c], e[3], f.hi, f.lo), d.base + e[1], t)), i, t)
RECURSIVE ApplyAll(_, _, _)
ApplyAll(m, i, t) == IF i > Len(m.d) THEN m ELSE ApplyAll(TLCEval(Apply(m, i, t)), i + 1, t)
\* time passes until t
Pass(m, t) == [ApplyAll(m, 1, t) EXCEPT !.t = t]

\* what an instruction writes
NewVal(op, old, v, b) ==
  CASE op = "mov" -> v
    [] op = "inc" -> (old + 1) % 256
    [] op = "dec" -> (old + 255) % 256
    [] op = "setb" -> Put(old, 1, b, b)
    [] op = "clrb" -> Put(old, 0, b, b)

\* a recorded file: u ns are one unit; vs the variables of its header with their changes [s, v]
Near(s, u, lo, hi) == 2 * s * u >= 2 * lo - u /\ 2 * s * u <= 2 * hi + u
SameFile(d, f) ==
  /\ f.mono /\ Len(f.vs) = Len(d.rv)
  /\ \A i \in DOMAIN d.rv :
       LET x == d.rv[i] y == f.vs[i] IN
       /\ x.c = y.c /\ x.hi = y.hi /\ x.lo = y.lo /\ Len(x.log) = Len(y.ch)
       /\ \A j \in DOMAIN x.log : x.log[j].v = y.ch[j][2] /\ Near(y.ch[j][1], f.u, x.log[j].lo, x.log[j].hi)
=============================================================================
