------------------------------- MODULE Mos6502 -------------------------------
(* MOS 6502 (MCS6500 programming manual) and, with r.K >= 1, the 65C02 (r.K = 2:
   65C02S with the Rockwell bit instructions): effect of one instruction.
   P: N(7) V(6) - B(4) D(3) I(2) Z(1) C(0); bits 5 and 4 exist on the stack only. *)
EXTENDS IsaMem

Mos6502Settle(m) == m
M16(m, a) == W16(Rd(m, B16(a + 1)), Rd(m, B16(a)))
Z16(m, a) == W16(Rd(m, B8(a + 1)), Rd(m, B8(a)))             \* pointer in page zero
Clr(p, i) == SetBit(p, i, 0)
P(p, i, v) == SetBit(p, i, v)
NZ(p, x) == P(P(p, 7, Bit(x, 7)), 1, I(x = 0))
Push(p, v) == <<[p[1] EXCEPT !.SP = B8(@ - 1)], Wr(p[2], 256 + p[1].SP, v)>>
Top(r, m, i) == Rd(m, 256 + B8(r.SP + i))
Bcd(x) == (x \div 16) * 10 + (x % 16)
ToBcd(x) == (x \div 10) * 16 + (x % 10)
u0 == << >>
D(r, m, pc) == [r |-> [r EXCEPT !.PC = B16(pc)], m |-> m, t |-> -1, u |-> u0]

Ea(r, m, mode) ==         \* effective address; operand bytes start at PC + 1
  LET n == Rd(m, B16(r.PC + 1)) nn == M16(m, r.PC + 1) IN
  CASE mode = "im" -> B16(r.PC + 1) [] mode = "z" -> n [] mode = "zx" -> B8(n + r.X) [] mode = "zy" -> B8(n + r.Y)
    [] mode = "a" -> nn [] mode = "ax" -> B16(nn + r.X) [] mode = "ay" -> B16(nn + r.Y)
    [] mode = "ix" -> Z16(m, n + r.X) [] mode = "iy" -> B16(Z16(m, n) + r.Y) [] mode = "zi" -> Z16(m, n)
Len1(mode) == IF mode \in {"a", "ax", "ay"} THEN 3 ELSE 2

Adc(r, b) ==
  LET c == r.P % 2 IN
  IF Bit(r.P, 3) = 0
  THEN LET x == B8(r.A + b + c) IN
       <<[r EXCEPT !.A = x, !.P = P(P(NZ(@, x), 0, CarryAt(r.A, b, c, 8)), 6, OvAdd8(r.A, b, c))], u0>>
  ELSE LET s == Bcd(r.A) + Bcd(b) + c x == ToBcd(s % 100) IN
       <<[r EXCEPT !.A = x, !.P = P(NZ(@, x), 0, I(s > 99))], [P |-> IF r.K = 0 THEN 194 ELSE 64]>>
Sbc(r, b) ==
  LET c == 1 - (r.P % 2) IN
  IF Bit(r.P, 3) = 0
  THEN LET x == B8(r.A - b - c) IN
       <<[r EXCEPT !.A = x, !.P = P(P(NZ(@, x), 0, 1 - BorrowAt(r.A, b, c, 8)), 6, OvSub8(r.A, b, c))], u0>>
  ELSE LET s == Bcd(r.A) - Bcd(b) - c x == ToBcd((s + 100) % 100) IN
       <<[r EXCEPT !.A = x, !.P = P(NZ(@, x), 0, I(s >= 0))], [P |-> IF r.K = 0 THEN 194 ELSE 64]>>
Cmp(r, a, b) == [r EXCEPT !.P = P(NZ(@, B8(a - b)), 0, I(a >= b))]
LdA(r, x) == [r EXCEPT !.A = x, !.P = NZ(@, x)]
\* shifts: <<value, carry>>
Sh(k, x, c) == CASE k = 0 -> <<B8(x * 2), Bit(x, 7)>> [] k = 1 -> <<B8(x * 2) + c, Bit(x, 7)>>
                 [] k = 2 -> <<x \div 2, x % 2>> [] k = 3 -> <<(x \div 2) + 128 * c, x % 2>>

Mos6502Exec(r, m) ==
  LET op == Rd(m, r.PC)
      a3 == op \div 32
      b3 == (op \div 4) % 8
      c2 == op % 4
      n == Rd(m, B16(r.PC + 1))
      nn == M16(m, r.PC + 1)
      cm == r.K >= 1
      g(q, k) == D(q, m, r.PC + k)
      w(q, mm, k) == D(q, mm, r.PC + k)
      br(t) == D(r, m, IF t THEN r.PC + 2 + S8(n) ELSE r.PC + 2)
      f(i, v) == g([r EXCEPT !.P = P(@, i, v)], 1)
      ld(q, reg, x) == [q EXCEPT ![reg] = x, !.P = NZ(@, x)]
      push(v) == LET q == Push(<<r, m>>, v) IN w(q[1], q[2], 1)
      pull(reg) == g(ld([r EXCEPT !.SP = B8(@ + 1)], reg, Top(r, m, 1)), 1)
      mode1 == <<"ix", "z", "im", "a", "iy", "zx", "ay", "ax">>[b3 + 1]
      mode2 == IF op \in {150, 182} THEN "zy" ELSE IF op = 190 THEN "ay"
               ELSE CASE b3 = 0 -> "im" [] b3 = 1 -> "z" [] b3 = 3 -> "a" [] b3 = 5 -> "zx" [] b3 = 7 -> "ax"
                      [] b3 = 4 -> "zi" [] OTHER -> "im"
      mode0 == CASE b3 = 0 -> "im" [] b3 = 1 -> "z" [] b3 = 3 -> "a" [] b3 = 5 -> "zx" [] b3 = 7 -> "ax" [] OTHER -> "im"
      alu(mode) ==
        LET e == Ea(r, m, mode) k == Len1(mode) v == Rd(m, e) IN
        CASE a3 = 0 -> g(LdA(r, r.A | v), k) [] a3 = 1 -> g(LdA(r, r.A & v), k) [] a3 = 2 -> g(LdA(r, r.A ^^ v), k)
          [] a3 = 3 -> LET x == Adc(r, v) IN [g(x[1], k) EXCEPT !.u = x[2]]
          [] a3 = 4 -> w(r, Wr(m, e, r.A), k) [] a3 = 5 -> g(LdA(r, v), k) [] a3 = 6 -> g(Cmp(r, r.A, v), k)
          [] a3 = 7 -> LET x == Sbc(r, v) IN [g(x[1], k) EXCEPT !.u = x[2]]
      rmw(mode, fn(_)) == LET e == Ea(r, m, mode) q == fn(Rd(m, e)) IN w([r EXCEPT !.P = q[2]], Wr(m, e, q[1]), Len1(mode))
      shift(x) == LET q == Sh(a3, x, r.P % 2) IN <<q[1], P(NZ(r.P, q[1]), 0, q[2])>>
      inc(x) == <<B8(x + 1), NZ(r.P, B8(x + 1))>>
      dec(x) == <<B8(x - 1), NZ(r.P, B8(x - 1))>>
      tsb(x) == <<x | r.A, P(r.P, 1, I((x & r.A) = 0))>>
      trb(x) == <<x & (255 - r.A), P(r.P, 1, I((x & r.A) = 0))>>
      bit(mode) == LET v == Rd(m, Ea(r, m, mode)) z == P(r.P, 1, I((r.A & v) = 0)) IN
                   g([r EXCEPT !.P = IF mode = "im" THEN z ELSE P(P(z, 7, Bit(v, 7)), 6, Bit(v, 6))], Len1(mode))
      st(v, mode) == w(r, Wr(m, Ea(r, m, mode), v), Len1(mode))
      lx(reg, mode) == g(ld(r, reg, Rd(m, Ea(r, m, mode))), Len1(mode))
      cp(v, mode) == g(Cmp(r, v, Rd(m, Ea(r, m, mode))), Len1(mode))
  IN
  CASE op = 0 -> LET q == Push(Push(Push(<<r, m>>, Hi(r.PC + 2)), Lo(r.PC + 2)), (r.P & 207) | 48)                \* BRK
                     p1 == P(q[1].P, 2, 1) IN D([q[1] EXCEPT !.P = IF cm THEN Clr(p1, 3) ELSE p1], q[2], M16(q[2], 65534))
    [] op = 64 -> D([r EXCEPT !.SP = B8(@ + 3), !.P = Top(r, m, 1) & 207], m, W16(Top(r, m, 3), Top(r, m, 2)))    \* RTI
    [] op = 32 -> LET q == Push(Push(<<r, m>>, Hi(r.PC + 2)), Lo(r.PC + 2)) IN D(q[1], q[2], nn)                  \* JSR
    [] op = 96 -> D([r EXCEPT !.SP = B8(@ + 2)], m, W16(Top(r, m, 2), Top(r, m, 1)) + 1)                          \* RTS
    [] op = 8 -> push((r.P & 207) | 48) [] op = 72 -> push(r.A)
    [] op = 40 -> g([r EXCEPT !.SP = B8(@ + 1), !.P = Top(r, m, 1) & 207], 1) [] op = 104 -> pull("A")
    [] cm /\ op = 90 -> push(r.Y) [] cm /\ op = 218 -> push(r.X) [] cm /\ op = 122 -> pull("Y") [] cm /\ op = 250 -> pull("X")
    [] op % 32 = 16 -> LET i == <<7, 6, 0, 1>>[(op \div 64) + 1] IN br(Bit(r.P, i) = (op \div 32) % 2)
    [] cm /\ op = 128 -> br(TRUE)
    [] op = 24 -> f(0, 0) [] op = 56 -> f(0, 1) [] op = 88 -> f(2, 0) [] op = 120 -> f(2, 1) [] op = 184 -> f(6, 0)
    [] op = 216 -> f(3, 0) [] op = 248 -> f(3, 1)
    [] op = 136 -> g(ld(r, "Y", B8(r.Y - 1)), 1) [] op = 200 -> g(ld(r, "Y", B8(r.Y + 1)), 1)
    [] op = 202 -> g(ld(r, "X", B8(r.X - 1)), 1) [] op = 232 -> g(ld(r, "X", B8(r.X + 1)), 1)
    [] op = 138 -> g(ld(r, "A", r.X), 1) [] op = 152 -> g(ld(r, "A", r.Y), 1) [] op = 168 -> g(ld(r, "Y", r.A), 1)
    [] op = 170 -> g(ld(r, "X", r.A), 1) [] op = 186 -> g(ld(r, "X", r.SP), 1) [] op = 154 -> g([r EXCEPT !.SP = r.X], 1)
    [] op = 234 -> g(r, 1)
    [] cm /\ op = 26 -> g(ld(r, "A", B8(r.A + 1)), 1) [] cm /\ op = 58 -> g(ld(r, "A", B8(r.A - 1)), 1)
    [] op = 76 -> D(r, m, nn) [] op = 108 -> D(r, m, M16(m, nn)) [] cm /\ op = 124 -> D(r, m, M16(m, nn + r.X))
    [] op \in {36, 44} -> bit(mode0) [] cm /\ op \in {52, 60} -> bit(mode0) [] cm /\ op = 137 -> bit("im")
    [] cm /\ op \in {4, 12} -> rmw(mode0, tsb) [] cm /\ op \in {20, 28} -> rmw(IF op = 20 THEN "z" ELSE "a", trb)
    [] cm /\ op \in {100, 116} -> st(0, mode0) [] cm /\ op = 156 -> st(0, "a") [] cm /\ op = 158 -> st(0, "ax")
    [] cm /\ op \in {2, 34, 66, 98, 130, 194, 226, 68, 84, 212, 244} -> g(r, 2) [] cm /\ op \in {92, 220, 252} -> g(r, 3)
    [] cm /\ c2 = 3 /\ op % 8 = 3 -> g(r, 1)
    [] r.K = 1 /\ c2 = 3 -> g(r, 1)
    [] r.K = 2 /\ op % 16 = 7 ->                                                                                  \* RMBi, SMBi
         w(r, Wr(m, n, SetBit(Rd(m, n), (op \div 16) % 8, op \div 128)), 2)
    [] r.K = 2 /\ op % 16 = 15 ->                                                                                 \* BBRi, BBSi
         D(r, m, IF Bit(Rd(m, n), (op \div 16) % 8) = op \div 128 THEN r.PC + 3 + S8(Rd(m, B16(r.PC + 2))) ELSE r.PC + 3)
    [] c2 = 1 -> alu(mode1)
    [] cm /\ c2 = 2 /\ b3 = 4 -> alu("zi")
    [] c2 = 2 /\ b3 = 2 -> LET q == shift(r.A) IN g([r EXCEPT !.A = q[1], !.P = q[2]], 1)
    [] c2 = 2 -> (CASE a3 <= 3 -> rmw(mode2, shift) [] a3 = 4 -> st(r.X, mode2) [] a3 = 5 -> lx("X", mode2)
                   [] a3 = 6 -> rmw(mode2, dec) [] a3 = 7 -> rmw(mode2, inc))
    [] c2 = 0 -> CASE a3 = 4 -> st(r.Y, mode0) [] a3 = 5 -> lx("Y", mode0) [] a3 = 6 -> cp(r.Y, mode0) [] a3 = 7 -> cp(r.X, mode0)
=============================================================================
