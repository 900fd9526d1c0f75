------------------------------- MODULE I8048 --------------------------------
(* MCS-48 family (r.K = 8: 8048/49/50, r.K = 1: 8021): the effect of one instruction.
   Durations are five states per machine cycle.
   Spaces: 0 program, 1 internal RAM (registers at 0 and 24, stack from 8), 2 external RAM.
   psw: CY AC F0 BS 1 S2 S1 S0.  Ports, pins, timer and expander ports are registers. *)
EXTENDS IsaMem

I8048Settle(m) == m

I8048Exec(r, m) ==
  LET K8 == r.K = 8
      P(a) == Rd(m, a)
      op == P(r.PC)
      inc(pc) == (pc \div 2048) * 2048 + ((pc + 1) % 2048)      \* A11 is not counted
      pc1 == inc(r.PC)
      pc2 == inc(pc1)
      i8 == P(pc1)
      lo == op % 16
      hi == op \div 16
      A == r.ACC
      C == Bit(r.psw, 7)
      AC == Bit(r.psw, 6)
      bank == IF K8 /\ Bit(r.psw, 4) = 1 THEN 24 ELSE 0
      ra(n) == SPC + bank + n                                 \* address of a register
      R(n) == P(ra(n))
      ma(a) == SPC + (IF K8 THEN a ELSE a % 64)
      \* operand of the columns 0, 1 (indirect) and 8..15 (register)
      oa == IF lo < 2 THEN ma(R(lo)) ELSE ra(lo - 8)
      ov == P(oa)
      psw(c, ac) == SetBit(SetBit(r.psw, 7, c), 6, ac)
      res(q, mm, pc, cyc) == [r |-> [q EXCEPT !.PC = pc], m |-> mm, t |-> 5 * cyc, u |-> << >>]
      resu(q, mm, pc, cyc, u) == [r |-> [q EXCEPT !.PC = pc], m |-> mm, t |-> 5 * cyc, u |-> u]
      n1(q) == res(q, m, pc1, 1)
      n2(q) == res(q, m, pc2, 2)
      st(a, v, cyc) == res(r, Wr(m, a, v), pc1, cyc)
      acc(v) == [r EXCEPT !.ACC = v]
      add(b, c) == [r EXCEPT !.ACC = B8(A + b + c), !.psw = psw(CarryAt(A, b, c, 8), CarryAt(A, b, c, 4))]
      \* conditional jump inside of the page that holds the second byte
      jc(q, mm, cond) == res(q, mm, IF cond THEN (pc1 \div 256) * 256 + i8 ELSE pc2, 2)
      jif(cond) == jc(r, m, cond)
      mb == IF K8 THEN r.DBF * 2048 ELSE 0
      far == mb + (op \div 32) * 256 + i8
      sp == r.psw % 8
      push == Wr2(m, SPC + 8 + 2 * sp, B8(pc2), SPC + 9 + 2 * sp, (pc2 \div 256) + IF K8 THEN (r.psw \div 16) * 16 ELSE 0)
      spd == (sp + 7) % 8
      ret == P(SPC + 8 + 2 * spd) + 256 * (P(SPC + 9 + 2 * spd) % 16)
      top == (r.psw \div 8) * 8
      da1 == LET x == (A % 16 > 9) \/ AC = 1 IN <<IF x THEN B8(A + 6) ELSE A, IF x /\ A > 249 THEN 1 ELSE C>>
      da == LET x == (da1[1] \div 16 > 9) \/ da1[2] = 1 IN <<IF x THEN B8(da1[1] + 96) ELSE da1[1], IF x THEN 1 ELSE da1[2]>>
      \* ports of the expander: 4..7
      pin == CASE op % 4 = 0 -> r.pext0_pin4 [] op % 4 = 1 -> r.pext0_pin5 [] op % 4 = 2 -> r.pext0_pin6 [] op % 4 = 3 -> r.pext0_pin7
      odr == CASE op % 4 = 0 -> r.pext0_odr4 [] op % 4 = 1 -> r.pext0_odr5 [] op % 4 = 2 -> r.pext0_odr6 [] op % 4 = 3 -> r.pext0_odr7
      \* the lower half of the latch of P2 is lost
      xp(q) == resu(q, m, pc1, 2, [port2_odr |-> 15])
      xo(v) == xp(CASE op % 4 = 0 -> [r EXCEPT !.pext0_odr4 = v] [] op % 4 = 1 -> [r EXCEPT !.pext0_odr5 = v]
                    [] op % 4 = 2 -> [r EXCEPT !.pext0_odr6 = v] [] op % 4 = 3 -> [r EXCEPT !.pext0_odr7 = v])
      p2u(cyc, q, pc) == resu(q, m, pc, cyc, [port2_odr |-> IF K8 THEN 0 ELSE 240])
      bus(q, mm) == resu(q, mm, pc1, 2, [bus_out |-> 255])
  IN
  CASE op = 0 -> n1(r)
    [] op = 2 -> res([r EXCEPT !.bus_out = A], m, pc1, 2)
    [] op = 3 -> n2(add(i8, 0))
    [] op = 19 -> n2(add(i8, C))
    [] op = 35 -> n2(acc(i8))
    [] op = 67 -> n2(acc(A | i8))
    [] op = 83 -> n2(acc(A & i8))
    [] op = 211 -> n2(acc(A ^^ i8))
    [] op % 32 = 4 -> res(r, m, far, 2)                                        \* JMP
    [] op % 32 = 20 -> res([r EXCEPT !.psw = top + ((sp + 1) % 8)], push, far, 2)  \* CALL
    [] op = 131 -> res([r EXCEPT !.psw = top + spd], m, ret, 2)                \* RET
    [] op = 147 -> res([r EXCEPT !.psw = (P(SPC + 9 + 2 * spd) \div 16) * 16 + 8 + spd], m, ret, 2) \* RETR
    [] op % 32 = 18 -> jif(Bit(A, op \div 32) = 1)                             \* JBb
    [] op = 22 -> jc([r EXCEPT !.timer0_flag = 0], m, r.timer0_flag = 1)       \* JTF
    [] op = 38 -> jif(r.T0 = 0)
    [] op = 54 -> jif(r.T0 = 1)
    [] op = 70 -> jif(r.T1 = 0)
    [] op = 86 -> jif(r.T1 = 1)
    [] op = 118 -> jif(r.F1 = 1)
    [] op = 134 -> jif(r.INT = 0)
    [] op = 150 -> jif(A # 0)
    [] op = 182 -> jif(Bit(r.psw, 5) = 1)
    [] op = 198 -> jif(A = 0)
    [] op = 230 -> jif(C = 0)
    [] op = 246 -> jif(C = 1)
    [] op = 179 -> res(r, m, (pc1 \div 256) * 256 + P((pc1 \div 256) * 256 + A), 2) \* JMPP @A
    [] op \div 8 = 29 -> LET v == B8(R(op % 8) + 255) IN jc(r, Wr(m, ra(op % 8), v), v # 0) \* DJNZ
    [] op = 7 -> n1(acc(B8(A + 255)))
    [] op = 23 -> n1(acc(B8(A + 1)))
    [] op = 39 -> n1(acc(0))
    [] op = 55 -> n1(acc(255 - A))
    [] op = 71 -> n1(acc((A % 16) * 16 + (A \div 16)))
    [] op = 87 -> n1([r EXCEPT !.ACC = da[1], !.psw = SetBit(@, 7, da[2])])
    [] op = 103 -> n1([r EXCEPT !.ACC = (A \div 2) + 128 * C, !.psw = SetBit(@, 7, A % 2)])
    [] op = 119 -> n1(acc((A \div 2) + 128 * (A % 2)))
    [] op = 231 -> n1(acc(B8(2 * A) + (A \div 128)))
    [] op = 247 -> n1([r EXCEPT !.ACC = B8(2 * A) + C, !.psw = SetBit(@, 7, A \div 128)])
    [] op = 151 -> n1([r EXCEPT !.psw = SetBit(@, 7, 0)])
    [] op = 167 -> n1([r EXCEPT !.psw = SetBit(@, 7, 1 - C)])
    [] op = 133 -> n1([r EXCEPT !.psw = SetBit(@, 5, 0)])
    [] op = 149 -> n1([r EXCEPT !.psw = SetBit(@, 5, 1 - Bit(@, 5))])
    [] op = 165 -> n1([r EXCEPT !.F1 = 0])
    [] op = 181 -> n1([r EXCEPT !.F1 = 1 - @])
    [] op \in {197, 213} -> n1([r EXCEPT !.psw = SetBit(@, 4, Bit(op, 4))])    \* SEL RB
    [] op \in {229, 245} -> n1([r EXCEPT !.DBF = Bit(op, 4)])                  \* SEL MB
    [] op = 199 -> n1(acc(r.psw))
    [] op = 215 -> n1([r EXCEPT !.psw = SetBit(A, 3, 1)])
    [] op = 66 -> n1(acc(r.timer0))
    [] op = 98 -> n1([r EXCEPT !.timer0 = A])
    [] op = 69 -> n1([r EXCEPT !.timer0_mode = 1])
    [] op = 85 -> n1([r EXCEPT !.timer0_mode = 2])
    [] op = 101 -> n1([r EXCEPT !.timer0_mode = 0])
    [] op \in {37, 53} -> n1([r EXCEPT !.timer0_int_enabled = I(op = 37)])
    [] op \in {21, 117} -> n1(r)                                               \* DIS I, ENT0 CLK
    [] op = 8 -> res(acc(IF K8 THEN r.bus_in ELSE r.port0_odr & r.port0_pin), m, pc1, 2)
    [] op = 9 -> res(acc(r.port1_odr & r.port1_pin), m, pc1, 2)
    [] op = 10 -> resu(acc(r.port2_odr & r.port2_pin), m, pc1, 2, [ACC |-> IF K8 THEN 0 ELSE 240])
    [] op = 57 -> res([r EXCEPT !.port1_odr = A], m, pc1, 2)
    [] op = 58 -> p2u(2, [r EXCEPT !.port2_odr = A], pc1)
    [] op = 144 /\ ~K8 -> res([r EXCEPT !.port0_odr = A], m, pc1, 2)
    [] op = 136 -> n2([r EXCEPT !.bus_out = @ | i8])
    [] op = 137 -> n2([r EXCEPT !.port1_odr = @ | i8])
    [] op = 138 -> n2([r EXCEPT !.port2_odr = @ | i8])
    [] op = 152 -> n2([r EXCEPT !.bus_out = @ & i8])
    [] op = 153 -> n2([r EXCEPT !.port1_odr = @ & i8])
    [] op = 154 -> n2([r EXCEPT !.port2_odr = @ & i8])
    [] op \in 12..15 -> xp(acc(pin))
    [] op \in 60..63 -> xo(A % 16)
    [] op \in 140..143 -> xo(odr | (A % 16))
    [] op \in 156..159 -> xo(odr & (A % 16))
    [] op \in {128, 129} -> bus(acc(P(2 * SPC + R(lo))), m)
    [] op \in {144, 145} -> bus(r, Wr(m, 2 * SPC + R(lo), A))
    [] op = 163 -> res(acc(P((pc1 \div 256) * 256 + A)), m, pc1, 2)            \* MOVP
    [] op = 227 -> res(acc(P(768 + A)), m, pc1, 2)                             \* MOVP3
    [] op \in {48, 49} -> res(acc((A \div 16) * 16 + (ov % 16)), Wr(m, oa, (ov \div 16) * 16 + (A % 16)), pc1, 1)
    [] hi = 1 -> st(oa, B8(ov + 1), 1)
    [] hi = 2 -> res(acc(ov), Wr(m, oa, A), pc1, 1)
    [] hi = 4 -> n1(acc(A | ov))
    [] hi = 5 -> n1(acc(A & ov))
    [] hi = 6 -> n1(add(ov, 0))
    [] hi = 7 -> n1(add(ov, C))
    [] hi = 10 -> st(oa, A, 1)
    [] hi = 11 -> res(r, Wr(m, oa, i8), pc2, 2)
    [] hi = 12 -> st(oa, B8(ov + 255), 1)
    [] hi = 13 -> n1(acc(A ^^ ov))
    [] hi = 15 -> n1(acc(ov))
=============================================================================
