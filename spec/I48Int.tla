------------------------------- MODULE I48Int -------------------------------
(* MCS-48: an instruction, the timer/counter beside it and the interrupt accepted after it.
   On top of I8048: r.pre16, r.pre (dividers by 16 and 32 of the timer's input), r.edges (falling
   edges on T1 before the instruction) and, on the 8050, r.timer0_int_request, r.ene (external
   interrupt enabled), r.isr (an interrupt is being served). *)
EXTENDS I8048

I48IntSettle(m) == m

\* n counts of the timer
Count(r, n) ==
  LET v == r.timer0 + n
      o == v > 255
      r1 == [r EXCEPT !.timer0 = v % 256, !.timer0_flag = IF o THEN 1 ELSE @]
  IN IF r.K = 8 /\ o /\ r.timer0_int_enabled = 1 THEN [r1 EXCEPT !.timer0_int_request = 1] ELSE r1

I48IntExec(r0, m) ==
  LET K8 == r0.K = 8
      r == IF r0.timer0_mode = 1 THEN Count(r0, r0.edges) ELSE r0
      op == Rd(m, r.PC)
      pc1 == (r.PC \div 2048) * 2048 + ((r.PC + 1) % 2048)
      \* jumps and calls stay in the lower half of the memory while an interrupt is served
      low == K8 /\ r.isr = 1 /\ op % 16 = 4
      x0 == IF K8 /\ op = 5 THEN [r |-> [r EXCEPT !.PC = pc1, !.ene = 1], m |-> m, t |-> 5, u |-> << >>]
            ELSE IF low THEN I8048Exec([r EXCEPT !.DBF = 0], m)
            ELSE I8048Exec(r, m)
      x1 == [x0.r EXCEPT !.ene = IF op = 21 THEN 0 ELSE @,
                         !.isr = IF op = 147 THEN 0 ELSE @,
                         !.timer0_int_request = IF op = 53 THEN 0 ELSE @,
                         !.DBF = IF low THEN r.DBF ELSE @]
      x2 == IF K8 THEN x1 ELSE x0.r
      x == IF op \in {69, 85} THEN [x2 EXCEPT !.pre = 0] ELSE x2
      c == x.pre16 + x0.t
      d == x.pre + (c \div 16)
      y0 == [x EXCEPT !.pre16 = c % 16, !.pre = d % 32]
      y == IF x.timer0_mode = 2 THEN Count(y0, d \div 32) ELSE y0
      ext == y.ene = 1 /\ y.INT = 0
      tim == y.timer0_int_enabled = 1 /\ y.timer0_int_request = 1
      sp == y.psw % 8
  IN IF K8 /\ y.isr = 0 /\ (ext \/ tim)
       THEN [r |-> [y EXCEPT !.PC = IF ext THEN 3 ELSE 7, !.isr = 1, !.psw = (@ \div 8) * 8 + ((sp + 1) % 8),
                             !.timer0_int_request = IF ext THEN @ ELSE 0],
             m |-> Wr2(x0.m, SPC + 8 + 2 * sp, B8(y.PC), SPC + 9 + 2 * sp, (y.PC \div 256) + (y.psw \div 16) * 16),
             t |-> -1, u |-> x0.u]
       ELSE [x0 EXCEPT !.r = y]
=============================================================================
