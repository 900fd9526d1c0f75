------------------------------ MODULE TrNames -------------------------------
(* Trace validation of names.  A session starts with init mem w v; every event has
   an answer o (where the specification gives one) and the memories afterwards. *)
EXTENDS Names, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>

\* memories come as space -> [lo, q]
Mems(r) == [sp \in DOMAIN r |-> TLCEval([a \in r[sp].lo .. r[sp].lo + Len(r[sp].q) - 1 |-> r[sp].q[a - r[sp].lo + 1]])]
SetOf(q) == {q[i] : i \in DOMAIN q}

Step(c) ==
  IF c.k = "init" THEN m' = [mem |-> TLCEval(Mems(c.mem)), w |-> c.w, v |-> << >>] /\ bad' = << >>
  ELSE LET r == TLCEval(Do(m, c))
           o == IF c.k \in {"dump", "dumpb", "info", "set", "setn"} THEN SetOf(c.o) ELSE c.o
           after == TLCEval(Mems(c.mem))
           dm == {<<sp, {<<a, "expected", r[1].mem[sp][a], "observed", after[sp][a]>> :
                         a \in {x \in DOMAIN after[sp] : after[sp][x] # r[1].mem[sp][x]}}>> : sp \in DOMAIN after}
           memok == \A sp \in DOMAIN after : after[sp] = r[1].mem[sp]
           twice == c.k \in {"dump", "dumpb", "info", "set", "setn"} /\ Cardinality(o) # Len(c.o)
       IN /\ m' = r[1]
          /\ bad' = IF r[2] = o /\ memok /\ ~twice THEN << >>
                    ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> o, twice |-> twice,
                            memory |-> IF memok THEN {} ELSE dm]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
