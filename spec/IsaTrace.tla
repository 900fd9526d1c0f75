------------------------------ MODULE IsaTrace ------------------------------
(* Trace validation of recorded instruction executions.

   A trace file holds sessions; a session is a sequence of recorded steps of the
   real simulator.  Each step gives the registers (r) and memory cells (w) the
   driver set before it, the registers (q) and the memory changes (d) observed
   after it and the simulated clock ticks (t) it took.  The step is accepted only
   if the instruction-set specification's Exec action, applied to the
   specification's own state, yields exactly that.  Memory changes are observed
   after every step inside the session's windows (win), and for the whole of
   every address space by a "sync" step. *)
EXTENDS IsaMem, Json, IOUtils, FiniteSets

CONSTANTS Exec(_, _),      \* Exec(r, m) = [r, m, t, u]: t ticks or -1, u undefined bits
          Settle(_)        \* memory after the driver's pokes

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, r, m, bad
vars == <<s, l, r, m, bad>>

PokeFcn(w) == [a \in {w[i][1] : i \in DOMAIN w} |->
                  w[CHOOSE i \in DOMAIN w : w[i][1] = a][2]]
InWin(a, wins) == \E i \in DOMAIN wins : wins[i][1] <= a /\ a <= wins[i][2]

Init == /\ s \in 1 .. Len(Sessions)
        /\ l = 1
        /\ r = << >>
        /\ m = [b |-> Sessions[s].base, o |-> << >>, w |-> << >>]
        /\ bad = << >>

\* while a specification is developed: list every rejected step and go on
Listing == "LISTREJ" \in DOMAIN IOEnv

Und(u, f) == IF f \in DOMAIN u THEN u[f] ELSE 0
Same(a, b, mask) == IF mask = 0 THEN a = b ELSE (a | mask) = (b | mask)

\* registers and memory as the driver left them before step c
R0(c) == IF c.r = << >> THEN r ELSE c.r @@ r
M0(c) == IF c.w = << >> THEN m
         ELSE Settle([b |-> m.b, o |-> PokeFcn(c.w) @@ m.o, w |-> << >>])

\* one recorded instruction
StepEvent(c) ==
  /\ c.k = "step"
  /\ LET m0 == M0(c)
         r0 == R0(c)
         x  == Exec(r0, m0)
         W  == {x.m.w[i] : i \in DOMAIN x.m.w}
         D  == {c.d[i][1] : i \in DOMAIN c.d}
         Dv(a) == c.d[CHOOSE i \in DOMAIN c.d : c.d[i][1] = a][2]
         wins == Sessions[s].win
         \* what the implementation holds in cell a now: the value it changed to,
         \* or what was there before for a cell that was observed not to change
         Obs(a) == IF a \in D THEN Dv(a) ELSE Rd(m0, a)
         badm == {a \in {b \in W : InWin(b, wins)} \cup D : Rd(x.m, a) # Obs(a)}
         badr == {f \in DOMAIN c.q : ~Same(x.r[f], c.q[f], Und(x.u, f))}
         badt == IF x.t # -1 /\ x.t # c.t THEN << "observed", c.t, "expected", x.t >> ELSE << >>
         v == << [session |-> s, case |-> l,
                  regs  |-> {<<f, "expected", x.r[f], "observed", c.q[f]>> : f \in badr},
                  mem   |-> {<<a \div SPC, a % SPC, "expected", Rd(x.m, a), "observed", Obs(a)>> : a \in badm},
                  ticks |-> badt, pre |-> r0] >>
     IN /\ bad' = IF badm = {} /\ badr = {} /\ badt = << >> THEN << >>
                  ELSE IF Listing THEN (IF PrintT("REJ" \o ToString(v)) THEN << >> ELSE << >>) ELSE v
        /\ r' = c.q @@ x.r
        /\ m' = [x.m EXCEPT !.w = << >>]

\* the whole of memory, as the set of cells that differ from their initial fill
SyncEvent(c) ==
  /\ c.k = "sync"
  /\ LET seen == {<<c.d[i][1], c.d[i][2]>> : i \in DOMAIN c.d}
         have == {<<a, m.o[a]>> : a \in {b \in DOMAIN m.o : m.o[b] # m.b[(b \div SPC) + 1]}}
     IN bad' = IF seen = have \/ Listing THEN << >>
               ELSE << [session |-> s, case |-> l, unexpected |-> seen \ have, missing |-> have \ seen] >>
  /\ UNCHANGED <<r, m>>

Next ==
  /\ bad = << >>
  /\ l <= Len(Sessions[s].cases)
  /\ l' = l + 1
  /\ s' = s
  /\ LET c == Sessions[s].cases[l] IN StepEvent(c) \/ SyncEvent(c)

Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
