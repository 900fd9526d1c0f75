-------------------------------- MODULE Z80 ---------------------------------
(* The Z80 instruction set (Zilog, "Z80 CPU User Manual"): the effect of one
   documented instruction on the registers, memory and the ports.
   Spaces: 0 memory, 1 input ports, 2 output ports.  Flags: S Z - H - P/V N C.
   Bits 5 and 3 of F have no documented value. *)
EXTENDS IsaMem

Z80Settle(m) == m
Mem(a) == B16(a)
\* a port is selected by the lower half of the address bus
InP(a) == SPC + (a % 256)
OutP(a) == 2 * SPC + (a % 256)
Rd16(m, a) == W16(Rd(m, Mem(a + 1)), Rd(m, Mem(a)))
Wr16(m, a, v) == Wr(Wr(m, Mem(a), Lo(v)), Mem(a + 1), Hi(v))

\* flags
FL(s, z, h, p, n, c) == s * 128 + z * 64 + h * 16 + p * 4 + n * 2 + c
XY == 40                                     \* undefined bits
fC(r) == r.F % 2
fN(r) == Bit(r.F, 1)
fP(r) == Bit(r.F, 2)
fH(r) == Bit(r.F, 4)
fZ(r) == Bit(r.F, 6)
fS(r) == Bit(r.F, 7)
Even(x) == 1 - Parity(x)

\* 8 bit registers by number; 6 is (HL), given by ix: 0 HL, 1 IX, 2 IY
HLr(r) == W16(r.H, r.L)
BCr(r) == W16(r.B, r.C)
DEr(r) == W16(r.D, r.E)
HLx(r, ix) == IF ix = 0 THEN HLr(r) ELSE IF ix = 1 THEN r.IX ELSE r.IY
SetHLx(r, ix, v) == IF ix = 0 THEN [r EXCEPT !.H = Hi(v), !.L = Lo(v)]
                    ELSE IF ix = 1 THEN [r EXCEPT !.IX = v] ELSE [r EXCEPT !.IY = v]
SetBC(r, v) == [r EXCEPT !.B = Hi(v), !.C = Lo(v)]
SetDE(r, v) == [r EXCEPT !.D = Hi(v), !.E = Lo(v)]
SetHL(r, v) == [r EXCEPT !.H = Hi(v), !.L = Lo(v)]

Get8(r, m, i, ea) ==
  CASE i = 0 -> r.B [] i = 1 -> r.C [] i = 2 -> r.D [] i = 3 -> r.E
    [] i = 4 -> r.H [] i = 5 -> r.L [] i = 6 -> Rd(m, Mem(ea)) [] i = 7 -> r.A
\* undocumented but universal: with a prefix H and L are the halves of the index register
Get8x(r, m, i, ea, ix) ==
  IF ix # 0 /\ i = 4 THEN Hi(HLx(r, ix)) ELSE IF ix # 0 /\ i = 5 THEN Lo(HLx(r, ix)) ELSE Get8(r, m, i, ea)
\* <<registers, memory>> after storing v in register (or cell) i
Put8(r, m, i, ea, v) ==
  CASE i = 0 -> <<[r EXCEPT !.B = v], m>> [] i = 1 -> <<[r EXCEPT !.C = v], m>>
    [] i = 2 -> <<[r EXCEPT !.D = v], m>> [] i = 3 -> <<[r EXCEPT !.E = v], m>>
    [] i = 4 -> <<[r EXCEPT !.H = v], m>> [] i = 5 -> <<[r EXCEPT !.L = v], m>>
    [] i = 6 -> <<r, Wr(m, Mem(ea), v)>>  [] i = 7 -> <<[r EXCEPT !.A = v], m>>
Put8x(r, m, i, ea, ix, v) ==
  IF ix # 0 /\ i = 4 THEN <<SetHLx(r, ix, W16(v, Lo(HLx(r, ix)))), m>>
  ELSE IF ix # 0 /\ i = 5 THEN <<SetHLx(r, ix, W16(Hi(HLx(r, ix)), v)), m>>
  ELSE Put8(r, m, i, ea, v)

Pair(r, i, ix) == CASE i = 0 -> BCr(r) [] i = 1 -> DEr(r) [] i = 2 -> HLx(r, ix) [] i = 3 -> r.SP
SetPair(r, i, ix, v) == CASE i = 0 -> SetBC(r, v) [] i = 1 -> SetDE(r, v) [] i = 2 -> SetHLx(r, ix, v)
                          [] i = 3 -> [r EXCEPT !.SP = v]

\* conditions NZ Z NC C PO PE P M
Cond(r, y) == LET f == CASE y \div 2 = 0 -> fZ(r) [] y \div 2 = 1 -> fC(r) [] y \div 2 = 2 -> fP(r) [] y \div 2 = 3 -> fS(r)
              IN f = y % 2

\* arithmetic on A: <<result, flags>>
AddF(a, v, c) == LET x == B8(a + v + c)
                 IN <<x, FL(Bit(x, 7), I(x = 0), CarryAt(a, v, c, 4), OvAdd8(a, v, c), 0, CarryAt(a, v, c, 8))>>
SubF(a, v, c) == LET x == B8(a - v - c)
                 IN <<x, FL(Bit(x, 7), I(x = 0), BorrowAt(a, v, c, 4), OvSub8(a, v, c), 1, BorrowAt(a, v, c, 8))>>
LogF(x, h) == <<x, FL(Bit(x, 7), I(x = 0), h, Even(x), 0, 0)>>
Alu(r, y, v) ==
  LET a == r.A
      q == CASE y = 0 -> AddF(a, v, 0)     [] y = 1 -> AddF(a, v, fC(r))
             [] y = 2 -> SubF(a, v, 0)     [] y = 3 -> SubF(a, v, fC(r))
             [] y = 4 -> LogF(a & v, 1)    [] y = 5 -> LogF(a ^^ v, 0)
             [] y = 6 -> LogF(a | v, 0)    [] y = 7 -> <<a, SubF(a, v, 0)[2]>>
  IN [r EXCEPT !.A = q[1], !.F = q[2]]

Inc8F(r, v) == LET x == B8(v + 1) IN <<x, FL(Bit(x, 7), I(x = 0), I(v % 16 = 15), I(v = 127), 0, fC(r))>>
Dec8F(r, v) == LET x == B8(v - 1) IN <<x, FL(Bit(x, 7), I(x = 0), I(v % 16 = 0), I(v = 128), 1, fC(r))>>

\* CB rotates and shifts: <<result, carry>>
Rot(r, y, v) ==
  CASE y = 0 -> <<B8(v * 2) + Bit(v, 7), Bit(v, 7)>>          [] y = 1 -> <<(v \div 2) + 128 * (v % 2), v % 2>>
    [] y = 2 -> <<B8(v * 2) + fC(r), Bit(v, 7)>>              [] y = 3 -> <<(v \div 2) + 128 * fC(r), v % 2>>
    [] y = 4 -> <<B8(v * 2), Bit(v, 7)>>                      [] y = 5 -> <<(v \div 2) + 128 * Bit(v, 7), v % 2>>
    [] y = 6 -> <<B8(v * 2) + 1, Bit(v, 7)>>                  [] y = 7 -> <<v \div 2, v % 2>>
RotF(q) == FL(Bit(q[1], 7), I(q[1] = 0), 0, Even(q[1]), 0, q[2])

Daa(r) ==
  LET a == r.A
      n == fN(r)
      lo == fH(r) = 1 \/ a % 16 > 9
      hi == fC(r) = 1 \/ a > 153
      d == (IF lo THEN 6 ELSE 0) + (IF hi THEN 96 ELSE 0)
      x == IF n = 1 THEN B8(a - d) ELSE B8(a + d)
      h == IF n = 1 THEN I(fH(r) = 1 /\ a % 16 < 6) ELSE I(a % 16 > 9)
  IN [r EXCEPT !.A = x, !.F = FL(Bit(x, 7), I(x = 0), h, Even(x), n, I(hi))]

Push(r, m, v) == <<[r EXCEPT !.SP = B16(r.SP - 2)], Wr(Wr(m, Mem(r.SP - 1), Hi(v)), Mem(r.SP - 2), Lo(v))>>

\* a result: rf is the register number fetches (for the refresh register), pc the next address
Out(r, m, pc, rf, u) == [r |-> [r EXCEPT !.PC = B16(pc), !.R = (r.R - (r.R % 128)) + ((r.R + rf) % 128)], m |-> m, t |-> -1, u |-> u]
Nf(r, m, pc, rf) == Out(r, m, pc, rf, << >>)                    \* flags not affected
Fl(r, m, pc, rf) == Out(r, m, pc, rf, [F |-> XY])
Fu(r, m, pc, rf, f) == Out(r, m, pc, rf, [F |-> XY | f])
PutOut(p, pc, rf, u) == Out(p[1], p[2], pc, rf, u)

\* main table with (HL) at ea; pc0 is the address behind the opcode (and displacement)
Main(r, m, op, ix, ea, pc0, rf) ==
  LET x == op \div 64
      y == (op \div 8) % 8
      z == op % 8
      p == y \div 2
      q == y % 2
      n == Rd(m, Mem(pc0))
      nn == Rd16(m, pc0)
      hl == HLx(r, ix)
      plain == x = 1 /\ (z = 6 \/ y = 6)
      g(i) == IF i = 6 \/ plain THEN Get8(r, m, i, ea) ELSE Get8x(r, m, i, ea, ix)
      set(i, v) == IF i = 6 \/ plain THEN Put8(r, m, i, ea, v) ELSE Put8x(r, m, i, ea, ix, v)
      jr(t) == Nf(r, m, IF t THEN pc0 + 1 + S8(n) ELSE pc0 + 1, rf)
  IN
  CASE x = 0 /\ z = 0 ->
         (CASE y = 0 -> Nf(r, m, pc0, rf)
           [] y = 1 -> Nf([r EXCEPT !.A = r.ALT_A, !.F = r.ALT_F, !.ALT_A = r.A, !.ALT_F = r.F], m, pc0, rf)
           [] y = 2 -> LET b == B8(r.B - 1) IN
                       Nf([r EXCEPT !.B = b], m, IF b # 0 THEN pc0 + 1 + S8(n) ELSE pc0 + 1, rf)
           [] y = 3 -> jr(TRUE)
           [] y >= 4 -> jr(Cond(r, y - 4)))
    [] x = 0 /\ z = 1 /\ q = 0 -> Nf(SetPair(r, p, ix, nn), m, pc0 + 2, rf)
    [] x = 0 /\ z = 1 /\ q = 1 ->                                        \* ADD HL,rr
         LET v == Pair(r, p, ix) IN
         Fl([SetHLx(r, ix, B16(hl + v)) EXCEPT !.F = FL(fS(r), fZ(r), CarryAt(hl, v, 0, 12), fP(r), 0, CarryAt(hl, v, 0, 16))],
            m, pc0, rf)
    [] x = 0 /\ z = 2 ->
         (CASE y = 0 -> Nf(r, Wr(m, Mem(BCr(r)), r.A), pc0, rf)
           [] y = 1 -> Nf([r EXCEPT !.A = Rd(m, Mem(BCr(r)))], m, pc0, rf)
           [] y = 2 -> Nf(r, Wr(m, Mem(DEr(r)), r.A), pc0, rf)
           [] y = 3 -> Nf([r EXCEPT !.A = Rd(m, Mem(DEr(r)))], m, pc0, rf)
           [] y = 4 -> Nf(r, Wr16(m, nn, hl), pc0 + 2, rf)
           [] y = 5 -> Nf(SetHLx(r, ix, Rd16(m, nn)), m, pc0 + 2, rf)
           [] y = 6 -> Nf(r, Wr(m, Mem(nn), r.A), pc0 + 2, rf)
           [] y = 7 -> Nf([r EXCEPT !.A = Rd(m, Mem(nn))], m, pc0 + 2, rf))
    [] x = 0 /\ z = 3 -> Nf(SetPair(r, p, ix, B16(Pair(r, p, ix) + (IF q = 0 THEN 1 ELSE -1))), m, pc0, rf)
    [] x = 0 /\ z = 4 -> LET k == Inc8F(r, g(y)) t == set(y, k[1]) IN Fl([t[1] EXCEPT !.F = k[2]], t[2], pc0, rf)
    [] x = 0 /\ z = 5 -> LET k == Dec8F(r, g(y)) t == set(y, k[1]) IN Fl([t[1] EXCEPT !.F = k[2]], t[2], pc0, rf)
    [] x = 0 /\ z = 6 -> PutOut(set(y, n), pc0 + 1, rf, << >>)
    [] x = 0 /\ z = 7 ->
         (CASE y <= 3 -> LET k == Rot(r, y, r.A) IN
                        Fl([r EXCEPT !.A = k[1], !.F = FL(fS(r), fZ(r), 0, fP(r), 0, k[2])], m, pc0, rf)
           [] y = 4 -> Fl(Daa(r), m, pc0, rf)
           [] y = 5 -> Fl([r EXCEPT !.A = 255 - r.A, !.F = FL(fS(r), fZ(r), 1, fP(r), 1, fC(r))], m, pc0, rf)
           [] y = 6 -> Fl([r EXCEPT !.F = FL(fS(r), fZ(r), 0, fP(r), 0, 1)], m, pc0, rf)
           [] y = 7 -> Fl([r EXCEPT !.F = FL(fS(r), fZ(r), fC(r), fP(r), 0, 1 - fC(r))], m, pc0, rf))
    [] x = 1 -> PutOut(set(y, g(z)), pc0, rf, << >>)                      \* LD r,r'
    [] x = 2 -> Fl(Alu(r, y, g(z)), m, pc0, rf)
    [] x = 3 /\ z = 0 -> IF Cond(r, y) THEN Nf([r EXCEPT !.SP = B16(r.SP + 2)], m, Rd16(m, r.SP), rf) ELSE Nf(r, m, pc0, rf)
    [] x = 3 /\ z = 1 /\ q = 0 ->                                         \* POP
         LET v == Rd16(m, r.SP)
             r1 == [r EXCEPT !.SP = B16(r.SP + 2)]
         IN Nf(IF p = 3 THEN [r1 EXCEPT !.A = Hi(v), !.F = Lo(v)] ELSE SetPair(r1, p, ix, v), m, pc0, rf)
    [] x = 3 /\ z = 1 ->
         (CASE p = 0 -> Nf([r EXCEPT !.SP = B16(r.SP + 2)], m, Rd16(m, r.SP), rf)
           [] p = 1 -> Nf([r EXCEPT !.B = r.ALT_B, !.C = r.ALT_C, !.D = r.ALT_D, !.E = r.ALT_E, !.H = r.ALT_H, !.L = r.ALT_L,
                                    !.ALT_B = r.B, !.ALT_C = r.C, !.ALT_D = r.D, !.ALT_E = r.E, !.ALT_H = r.H, !.ALT_L = r.L], m, pc0, rf)
           [] p = 2 -> Nf(r, m, hl, rf)
           [] p = 3 -> Nf([r EXCEPT !.SP = hl], m, pc0, rf))
    [] x = 3 /\ z = 2 -> Nf(r, m, IF Cond(r, y) THEN nn ELSE pc0 + 2, rf)
    [] x = 3 /\ z = 3 ->
         (CASE y = 0 -> Nf(r, m, nn, rf)
           [] y = 2 -> Nf(r, Wr(m, OutP(W16(r.A, n)), r.A), pc0 + 1, rf)
           [] y = 3 -> Nf([r EXCEPT !.A = Rd(m, InP(W16(r.A, n)))], m, pc0 + 1, rf)
           [] y = 4 -> Nf(SetHLx(r, ix, Rd16(m, r.SP)), Wr16(m, r.SP, hl), pc0, rf)
           [] y = 5 -> Nf(SetHL(SetDE(r, HLr(r)), DEr(r)), m, pc0, rf)
           [] OTHER -> Nf(r, m, pc0, rf))                                  \* DI, EI
    [] x = 3 /\ z = 4 -> IF Cond(r, y) THEN LET k == Push(r, m, B16(pc0 + 2)) IN Nf(k[1], k[2], nn, rf) ELSE Nf(r, m, pc0 + 2, rf)
    [] x = 3 /\ z = 5 /\ q = 0 -> LET k == Push(r, m, IF p = 3 THEN W16(r.A, r.F) ELSE Pair(r, p, ix)) IN Nf(k[1], k[2], pc0, rf)
    [] x = 3 /\ z = 5 -> LET k == Push(r, m, B16(pc0 + 2)) IN Nf(k[1], k[2], nn, rf)
    [] x = 3 /\ z = 6 -> Fl(Alu(r, y, n), m, pc0 + 1, rf)
    [] x = 3 /\ z = 7 -> LET k == Push(r, m, B16(pc0)) IN Nf(k[1], k[2], 8 * y, rf)

Cb(r, m, op, ea, pc0, rf) ==
  LET x == op \div 64
      y == (op \div 8) % 8
      z == op % 8
      v == Get8(r, m, z, ea)
      k == Rot(r, y, v)
      t == Put8(r, m, z, ea, k[1])
  IN CASE x = 0 -> Fl([t[1] EXCEPT !.F = RotF(k)], t[2], pc0, rf)
       [] x = 1 -> Fu([r EXCEPT !.F = FL(0, 1 - Bit(v, y), 1, 0, 0, fC(r))], m, pc0, rf, 132)
       [] x = 2 -> PutOut(Put8(r, m, z, ea, SetBit(v, y, 0)), pc0, rf, << >>)
       [] x = 3 -> PutOut(Put8(r, m, z, ea, SetBit(v, y, 1)), pc0, rf, << >>)

AddF16(a, v, c) == LET x == B16(a + v + c)
                   IN <<x, FL(Bit(x, 15), I(x = 0), CarryAt(a, v, c, 12), OvAdd16(a, v, c), 0, CarryAt(a, v, c, 16))>>
SubF16(a, v, c) == LET x == B16(a - v - c)
                   IN <<x, FL(Bit(x, 15), I(x = 0), BorrowAt(a, v, c, 12), OvSub16(a, v, c), 1, BorrowAt(a, v, c, 16))>>


\* block instructions: one round; repeated by leaving PC on the instruction
Block(r, m, y, z, pc0, rf) ==
  LET d == IF y % 2 = 0 THEN 1 ELSE -1
      rep == y >= 6
      bc == B16(BCr(r) - 1)
      hl == HLr(r)
      v == Rd(m, Mem(hl))
      again(t) == IF rep /\ t THEN pc0 - 2 ELSE pc0
  IN CASE z = 0 -> Fl([SetHL(SetDE(SetBC(r, bc), B16(DEr(r) + d)), B16(hl + d)) EXCEPT !.F = FL(fS(r), fZ(r), 0, I(bc # 0), 0, fC(r))],
                      Wr(m, Mem(DEr(r)), v), again(bc # 0), rf)
       [] z = 1 -> LET k == SubF(r.A, v, 0) IN
                   Fl([SetHL(SetBC(r, bc), B16(hl + d)) EXCEPT
                          !.F = FL(Bit(k[1], 7), I(k[1] = 0), BorrowAt(r.A, v, 0, 4), I(bc # 0), 1, fC(r))],
                      m, again(bc # 0 /\ k[1] # 0), rf)
       [] z = 2 -> LET b == B8(r.B - 1) IN
                   Fu([SetHL(r, B16(hl + d)) EXCEPT !.B = b, !.F = FL(0, I(b = 0), 0, 0, 1, fC(r))],
                      Wr(m, Mem(hl), Rd(m, InP(BCr(r)))), again(b # 0), rf, 150)
       [] z = 3 -> LET b == B8(r.B - 1) IN
                   Fu([SetHL(r, B16(hl + d)) EXCEPT !.B = b, !.F = FL(0, I(b = 0), 0, 0, 1, fC(r))],
                      Wr(m, OutP(W16(b, r.C)), v), again(b # 0), rf, 150)

Ed(r, m, op, pc0, rf) ==
  LET x == op \div 64
      y == (op \div 8) % 8
      z == op % 8
      p == y \div 2
      q == y % 2
      nn == Rd16(m, pc0)
      hl == HLr(r)
  IN CASE x = 2 -> Block(r, m, y, z, pc0, rf)
       [] z = 0 -> LET v == Rd(m, InP(BCr(r)))
                       f == [r EXCEPT !.F = FL(Bit(v, 7), I(v = 0), 0, Even(v), 0, fC(r))]
                   IN Fl(IF y = 6 THEN f ELSE Put8(f, m, y, 0, v)[1], m, pc0, rf)
       [] z = 1 -> Nf(r, Wr(m, OutP(BCr(r)), Get8(r, m, y, 0)), pc0, rf)
       [] z = 2 -> LET k == IF q = 0 THEN SubF16(hl, Pair(r, p, 0), fC(r)) ELSE AddF16(hl, Pair(r, p, 0), fC(r))
                   IN Fl([SetHL(r, k[1]) EXCEPT !.F = k[2]], m, pc0, rf)
       [] z = 3 /\ q = 0 -> Nf(r, Wr16(m, nn, Pair(r, p, 0)), pc0 + 2, rf)
       [] z = 3 -> Nf(SetPair(r, p, 0, Rd16(m, nn)), m, pc0 + 2, rf)
       [] z = 4 -> LET k == SubF(0, r.A, 0) IN Fl([r EXCEPT !.A = k[1], !.F = k[2]], m, pc0, rf)
       [] z = 5 -> Nf([r EXCEPT !.SP = B16(r.SP + 2)], m, Rd16(m, r.SP), rf)
       [] z = 6 -> Nf(r, m, pc0, rf)
       [] z = 7 /\ y = 0 -> Nf([r EXCEPT !.I = r.A], m, pc0, rf)
       [] z = 7 /\ y = 1 -> Out([r EXCEPT !.R = r.A], m, pc0, 0, << >>)
       [] z = 7 /\ y = 2 -> Fu([r EXCEPT !.A = r.I, !.F = FL(Bit(r.I, 7), I(r.I = 0), 0, 0, 0, fC(r))], m, pc0, rf, 4)
       [] z = 7 /\ y = 3 -> LET v == (r.R - (r.R % 128)) + ((r.R + rf) % 128)
                            IN Fu([r EXCEPT !.A = v, !.F = FL(Bit(v, 7), I(v = 0), 0, 0, 0, fC(r))], m, pc0, rf, 4)
       [] z = 7 /\ y = 4 -> LET v == Rd(m, Mem(hl)) a == (r.A \div 16) * 16 + (v % 16) IN               \* RRD
                            Fl([r EXCEPT !.A = a, !.F = FL(Bit(a, 7), I(a = 0), 0, Even(a), 0, fC(r))],
                               Wr(m, Mem(hl), (r.A % 16) * 16 + (v \div 16)), pc0, rf)
       [] z = 7 /\ y = 5 -> LET v == Rd(m, Mem(hl)) a == (r.A \div 16) * 16 + (v \div 16) IN            \* RLD
                            Fl([r EXCEPT !.A = a, !.F = FL(Bit(a, 7), I(a = 0), 0, Even(a), 0, fC(r))],
                               Wr(m, Mem(hl), (v % 16) * 16 + (r.A % 16)), pc0, rf)

\* does the main-table instruction use (HL)?
UsesM(op) == op \in {52, 53, 54} \/ (op \div 64 = 1 /\ op # 118 /\ (op % 8 = 6 \/ (op \div 8) % 8 = 6)) \/ (op \div 64 = 2 /\ op % 8 = 6)

Z80Exec(r, m) ==
  LET pc == r.PC
      op == Rd(m, Mem(pc))
      o1 == Rd(m, Mem(pc + 1))
      ix == IF op = 221 THEN 1 ELSE 2
      b == HLx(r, ix)
      d == S8(Rd(m, Mem(pc + 2)))
  IN CASE op = 203 -> Cb(r, m, o1, HLr(r), pc + 2, 2)
       [] op = 237 -> Ed(r, m, o1, pc + 2, 2)
       [] op \in {221, 253} /\ o1 = 203 -> Cb(r, m, Rd(m, Mem(pc + 3)), B16(b + d), pc + 4, 2)
       [] op \in {221, 253} /\ UsesM(o1) -> Main(r, m, o1, ix, B16(b + d), pc + 3, 2)
       [] op \in {221, 253} -> Main(r, m, o1, ix, 0, pc + 2, 2)
       [] OTHER -> Main(r, m, op, 0, HLr(r), pc + 1, 1)
=============================================================================
