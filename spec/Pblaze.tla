------------------------------- MODULE Pblaze -------------------------------
(* PicoBlaze: the effect of one instruction (and of the interrupt accepted after it).
   r.K = 3: KCPSM3, r.K = 6: KCPSM6 with 1K of program and 64 bytes of scratch pad.
   Spaces: 0 program (18 bits), 1 registers (bank A 0..15, bank B 16..31, 32 flags I Z C,
   33 stack pointer), 2 scratch pad, 3 stack.
   r: PC, bank (active register bank), irq (interrupt requested), sc sz sb (flags and bank
   saved by the interrupt), port / outv (last port address and output value),
   give (value waiting on the input port).  Every instruction takes two clocks. *)
EXTENDS IsaMem

PblazeSettle(m) == m
PbFLAGS == SPC + 32
PbSP == SPC + 33
PbDepth(K) == IF K = 3 THEN 31 ELSE 30

\* names of the instructions; an odd (KCPSM6) or even (KCPSM3) main code has a constant operand
PbALU3 == (0 :> "LOAD") @@ (2 :> "INPUT") @@ (3 :> "FETCH") @@ (5 :> "AND") @@ (6 :> "OR") @@ (7 :> "XOR") @@ (9 :> "TEST") @@
          (10 :> "COMPARE") @@ (12 :> "ADD") @@ (13 :> "ADDCY") @@ (14 :> "SUB") @@ (15 :> "SUBCY") @@ (22 :> "OUTPUT") @@ (23 :> "STORE")
PbALU6 == (0 :> "LOAD") @@ (1 :> "AND") @@ (2 :> "OR") @@ (3 :> "XOR") @@ (4 :> "INPUT") @@ (5 :> "FETCH") @@ (6 :> "TEST") @@ (7 :> "TESTCY") @@
          (8 :> "ADD") @@ (9 :> "ADDCY") @@ (12 :> "SUB") @@ (13 :> "SUBCY") @@ (14 :> "COMPARE") @@ (15 :> "COMPARECY") @@ (22 :> "OUTPUT") @@ (23 :> "STORE")

PblazeExec(r, m) ==
  LET K6 == r.K = 6
      code == Rd(m, r.PC)
      top == code \div 4096                    \* main code, 6 bits
      alu == IF K6 THEN PbALU6 ELSE PbALU3
      const == ((top % 2) = 1) = K6
      x == (code \div 256) % 16
      y == (code \div 16) % 16
      kk == code % 256
      k12 == code % 4096
      R(b, n) == SPC + 16 * b + n
      rx == R(r.bank, x)
      ry == R(r.bank, y)
      X == Rd(m, rx)
      Y == Rd(m, ry)
      f == Rd(m, PbFLAGS)
      C == Bit(f, 0)
      Z == Bit(f, 1)
      v == IF const THEN kk ELSE Y             \* second operand
      sp == Rd(m, PbSP)
      pc1 == (r.PC + 1) % 1024
      fl(c, z) == 4 * (f \div 4) + 2 * z + c
      go(q, mm, pc) == [r |-> [q EXCEPT !.PC = pc], m |-> mm, t |-> 2, u |-> << >>]
      n(mm) == go(r, mm, pc1)
      set(val, c, z) == n(Wr2(m, rx, val, PbFLAGS, fl(c, z)))
      flags(c, z) == n(Wr(m, PbFLAGS, fl(c, z)))
      z0(val) == I(val = 0)
      zc(val) == IF K6 THEN I(val = 0 /\ Z = 1) ELSE I(val = 0)       \* ADDCY, SUBCY
      odd(val) == Parity(val)
      \* KCPSM6 starts again when the stack overflows or underflows
      restart(mm) == [go([r EXCEPT !.bank = 0], Wr2(mm, PbFLAGS, 0, PbSP, 0), 0) EXCEPT !.t = -1]
      pushed(mm, at) == Wr2(mm, 3 * SPC + Rd(mm, PbSP), (at + 4095) % 4096, PbSP, (Rd(mm, PbSP) + 1) % 31)
      call(a) == IF K6 /\ sp = 30 THEN restart(m)
                 ELSE go(r, pushed(m, pc1), a)
      down == IF sp = 0 THEN 30 ELSE sp - 1
      back == (Rd(m, 3 * SPC + down) + 1) % 1024
      ret(q, mm) == IF K6 /\ sp = 0 THEN restart(mm) ELSE go(q, Wr(mm, PbSP, down), back)
      reti(i) == IF K6 /\ sp = 0 THEN restart(m)
                 ELSE go([r EXCEPT !.bank = r.sb], Wr2(m, PbSP, down, PbFLAGS, 4 * i + 2 * r.sz + r.sc), back)
      shift(bit) ==                              \* SLA RL SLX SL0 SL1 SRA SRX RR SR0 SR1
        LET left == bit < 8
            in == CASE bit \in {0, 8} -> C [] bit = 2 -> X \div 128 [] bit = 12 -> X % 2
                    [] bit = 4 -> X % 2 [] bit = 10 -> X \div 128 [] bit \in {6, 14} -> 0 [] bit \in {7, 15} -> 1
            out == IF left THEN X \div 128 ELSE X % 2
            val == IF left THEN ((2 * X) % 256) + in ELSE (X \div 2) + (128 * in)
        IN set(val, out, z0(val))
      ad == X + v
      adc == X + v + C
      su == X - v
      suc == X - v - C
      op == alu[top \div 2]
      ALU ==
        CASE op = "LOAD" -> n(Wr(m, rx, v))
          [] op = "AND" -> set(X & v, 0, z0(X & v))
          [] op = "OR" -> set(X | v, 0, z0(X | v))
          [] op = "XOR" -> set(X ^^ v, 0, z0(X ^^ v))
          [] op = "TEST" -> flags(odd(X & v), z0(X & v))
          [] op = "TESTCY" -> flags((odd(X & v) + C) % 2, I((X & v) = 0 /\ Z = 1))
          [] op = "COMPARE" -> flags(I(v > X), I(v = X))
          [] op = "COMPARECY" -> flags(I(v + C > X), I(v + C = X /\ Z = 1))
          [] op = "ADD" -> set(B8(ad), I(ad > 255), z0(B8(ad)))
          [] op = "ADDCY" -> set(B8(adc), I(adc > 255), zc(B8(adc)))
          [] op = "SUB" -> set(B8(su), I(su < 0), z0(B8(su)))
          [] op = "SUBCY" -> set(B8(suc), I(suc < 0), zc(B8(suc)))
          [] op = "INPUT" -> go([r EXCEPT !.port = v], Wr(m, rx, r.give), pc1)
          [] op = "OUTPUT" -> go([r EXCEPT !.port = v, !.outv = X], m, pc1)
          [] op = "FETCH" -> n(Wr(m, rx, Rd(m, 2 * SPC + (v % 64))))
          [] op = "STORE" -> n(Wr(m, 2 * SPC + (v % 64), X))
      cond(c) == CASE c = 0 -> Z = 1 [] c = 1 -> Z = 0 [] c = 2 -> C = 1 [] c = 3 -> C = 0
      c3 == cond((code \div 1024) % 4)
      c6 == cond((top \div 4) % 4)
      a3 == code % 1024
      a6 == k12
      aXY == (X % 16) * 256 + Y
      body ==
        IF ~K6 THEN
          CASE top = 32 -> shift(code % 16)
            [] top = 42 -> ret(r, m)
            [] top = 43 -> IF c3 THEN ret(r, m) ELSE n(m)
            [] top = 48 -> call(a3)
            [] top = 49 -> IF c3 THEN call(a3) ELSE n(m)
            [] top = 52 -> go(r, m, a3)
            [] top = 53 -> go(r, m, IF c3 THEN a3 ELSE pc1)
            [] top = 56 -> reti(code % 2)
            [] top = 60 -> n(Wr(m, PbFLAGS, (f % 4) + 4 * (code % 2)))
            [] OTHER -> ALU
        ELSE
          CASE top = 20 /\ kk = 128 -> set(0, 1, 1)                           \* HWBUILD
            [] top = 20 /\ kk # 128 -> shift(code % 16)
            [] top = 22 -> n(Wr(m, R(1 - r.bank, x), Y))                      \* STAR
            [] top = 32 -> call(a6)
            [] top = 33 -> ret(r, Wr(m, rx, kk))                              \* LOAD&RETURN
            [] top = 34 -> go(r, m, a6)
            [] top = 36 -> call(aXY)
            [] top = 37 -> ret(r, m)
            [] top = 38 -> go(r, m, aXY)
            [] top = 40 -> n(Wr(m, PbFLAGS, (f % 4) + 4 * (code % 2)))
            [] top = 41 -> reti(code % 2)
            [] top = 43 -> go([r EXCEPT !.port = code % 16, !.outv = (code \div 16) % 256], m, pc1)  \* OUTPUTK
            [] top = 55 -> go([r EXCEPT !.bank = code % 2], m, pc1)           \* REGBANK
            [] top \in {48, 52, 56, 60} -> IF c6 THEN call(a6) ELSE n(m)
            [] top \in {49, 53, 57, 61} -> IF c6 THEN ret(r, m) ELSE n(m)
            [] top \in {50, 54, 58, 62} -> go(r, m, IF c6 THEN a6 ELSE pc1)
            [] OTHER -> ALU
      b == body
      f1 == Rd(b.m, PbFLAGS)
  IN IF r.bad = 1 THEN [r |-> r, m |-> m, t |-> -1, u |-> << >>]              \* not an instruction
     ELSE IF b.r.irq = 1 /\ Bit(f1, 2) = 1
       THEN [b EXCEPT !.r = [b.r EXCEPT !.PC = 1023, !.irq = 0, !.sc = Bit(f1, 0), !.sz = Bit(f1, 1), !.sb = b.r.bank],
                      !.m = Wr(pushed(b.m, b.r.PC), PbFLAGS, f1 % 4), !.t = 4]
     ELSE b
=============================================================================
