-------------------------------- MODULE Hist --------------------------------
(* The history of executed instructions: a bounded buffer of <<address, times>>; an instruction at the same
   address as the one before it makes no new element.  Only executed instructions are recorded: an instruction
   at which a breakpoint stops the simulation is not.

   The program is a field of one-location instructions with jumps J: address -> target. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Cap == 10000
Succ(J, a) == IF a \in DOMAIN J THEN J[a] ELSE a + 1

Put(h, a) ==
  LET n == Len(h)
  IN IF n > 0 /\ h[n][1] = a THEN [h EXCEPT ![n][2] = @ + 1]
     ELSE IF n = Cap THEN Append(Tail(h), <<a, 1>>) ELSE Append(h, <<a, 1>>)

\* elements of h after n instructions from a: <<history, pc>>
RECURSIVE Exec(_, _, _, _)
Exec(J, h, a, n) == IF n = 0 THEN <<h, a>> ELSE Exec(J, TLCEval(Put(h, a)), Succ(J, a), n - 1)
\* until the breakpoint at b (which does not stop the first instruction)
RECURSIVE Till(_, _, _, _)
Till(J, h, a, b) == IF a = b THEN <<h, a>> ELSE Till(J, TLCEval(Put(h, a)), Succ(J, a), b)
Run(J, h, a, b) == Till(J, TLCEval(Put(h, a)), Succ(J, a), b)

\* n instructions in a row without jumps, at once
Line(h, a, n) ==
  LET s == IF Len(h) > 0 /\ h[Len(h)][1] = a THEN 1 ELSE 0
      g == (IF s = 1 THEN [h EXCEPT ![Len(h)][2] = @ + 1] ELSE h) \o [i \in 1 .. n - s |-> <<a + s + i - 1, 1>>]
  IN IF Len(g) > Cap THEN SubSeq(g, Len(g) - Cap + 1, Len(g)) ELSE g

Info(h) == <<Cap, Len(h), FoldLeft(LAMBDA acc, x : acc + x[2], 0, h)>>
LastOf(h, n) == IF n < 1 THEN << >> ELSE IF n >= Len(h) THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))
=============================================================================
