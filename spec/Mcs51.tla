------------------------------- MODULE Mcs51 --------------------------------
(* The MCS-51 instruction set (Intel, "MCS-51 Programmer's Guide and Instruction
   Set"): the effect of one instruction on PC, internal RAM, SFRs, external RAM,
   and its length in machine cycles (12 clocks each).
   Address spaces: 0 internal RAM, 1 SFR (by SFR address), 2 external RAM, 3 code. *)
EXTENDS IsaMem

IRAM(a) == a
SFR(a)  == SPC + a
XRAM(a) == 2 * SPC + a
ROM(a)  == 3 * SPC + B16(a)

aSP == 129
aDPL == 130
aDPH == 131
aPSW == 208
aACC == 224
aB == 240
aP2 == 160

Dir(a) == IF a < 128 THEN IRAM(a) ELSE SFR(a)
\* a source operand: a port is read at its pins (m.p, when given), everything else reads the latch
IsPort(a) == a \in {SFR(128), SFR(144), SFR(160), SFR(176)}
RdS(m, a) == IF "p" \in DOMAIN m /\ IsPort(a) THEN Rd(m, a) & m.p[(a - SFR(128)) \div 16 + 1] ELSE Rd(m, a)
A(m) == Rd(m, SFR(aACC))
PSW(m) == Rd(m, SFR(aPSW))
CY(m) == Bit(PSW(m), 7)
AC(m) == Bit(PSW(m), 6)
Rn(m, n) == IRAM((PSW(m) & 24) + n)              \* register bank RS1:RS0
Ind(m, op) == IRAM(Rd(m, Rn(m, op % 2)))         \* @Ri
DPTR(m) == W16(Rd(m, SFR(aDPH)), Rd(m, SFR(aDPL)))
SetA(m, v) == Wr(m, SFR(aACC), v)
SetPSW(m, v) == Wr(m, SFR(aPSW), v)
SetCY(m, c) == SetPSW(m, SetBit(PSW(m), 7, c))
SetFlags(m, c, ac, ov) == SetPSW(m, SetBit(SetBit(SetBit(PSW(m), 7, c), 6, ac), 2, ov))

\* bit address -> byte address, bit number
BitByte(b) == IF b < 128 THEN IRAM(32 + b \div 8) ELSE SFR((b \div 8) * 8)
RdBit(m, b) == Bit(Rd(m, BitByte(b)), b % 8)
RdBitS(m, b) == Bit(RdS(m, BitByte(b)), b % 8)
WrBit(m, b, v) == Wr(m, BitByte(b), SetBit(Rd(m, BitByte(b)), b % 8, v))

\* After every instruction PSW.0 is the parity of ACC
FixP(m) == LET p == SetBit(PSW(m), 0, Parity(A(m)))
           IN IF p = PSW(m) THEN m ELSE SetPSW(m, p)
Mcs51Settle(m) == m

Add(m, v, c) == LET a == A(m) IN
   SetFlags(SetA(m, B8(a + v + c)), CarryAt(a, v, c, 8), CarryAt(a, v, c, 4), OvAdd8(a, v, c))
Sub(m, v, c) == LET a == A(m) IN
   SetFlags(SetA(m, B8(a - v - c)), BorrowAt(a, v, c, 8), BorrowAt(a, v, c, 4), OvSub8(a, v, c))
Push(m, v) == LET sp == B8(Rd(m, SFR(aSP)) + 1) IN Wr(Wr(m, SFR(aSP), sp), IRAM(sp), v)
PushPC(m, pc) == Push(Push(m, Lo(pc)), Hi(pc))
Top(m, i) == Rd(m, IRAM(B8(Rd(m, SFR(aSP)) - i)))
Drop(m, n) == Wr(m, SFR(aSP), B8(Rd(m, SFR(aSP)) - n))
DaA(m) == LET a == A(m)
              a1 == IF a % 16 > 9 \/ AC(m) = 1 THEN a + 6 ELSE a
              c1 == I(CY(m) = 1 \/ a1 > 255)
              b1 == B8(a1)
              a2 == IF b1 \div 16 > 9 \/ c1 = 1 THEN b1 + 96 ELSE b1
              c2 == I(c1 = 1 \/ a2 > 255)
          IN SetCY(SetA(m, B8(a2)), c2)

\* The operand of the regular ALU columns: x4/x5 immediate/direct, x6,x7 @Ri, x8..xF Rn
Operand(m, op, b1) == LET lo == op % 16 IN
   CASE lo = 4 -> b1
     [] lo = 5 -> RdS(m, Dir(b1))
     [] lo \in {6, 7} -> Rd(m, Ind(m, op))
     [] OTHER -> Rd(m, Rn(m, op % 8))
\* address of the operand of columns x5..xF
OpAddr(m, op, b1) == LET lo == op % 16 IN
   CASE lo = 5 -> Dir(b1)
     [] lo \in {6, 7} -> Ind(m, op)
     [] OTHER -> Rn(m, op % 8)
Len1(op) == IF op % 16 \in {4, 5} THEN 2 ELSE 1

Res(pc, m, cyc) == [r |-> [PC |-> B16(pc)], m |-> FixP(m), t |-> cyc * 12, u |-> << >>]

Mcs51Exec(r, m) ==
  LET pc == r.PC
      op == Rd(m, ROM(pc))
      b1 == Rd(m, ROM(pc + 1))
      b2 == Rd(m, ROM(pc + 2))
      lo == op % 16
      hi == op \div 16
      alu == lo >= 4
      v  == Operand(m, op, b1)
      n  == pc + Len1(op)
      rel(len, off) == pc + len + S8(off)
  IN
  CASE lo = 1 /\ hi % 2 = 0 ->                                     \* AJMP
         Res(((pc + 2) \div 2048) * 2048 + (op \div 32) * 256 + b1, m, 2)
    [] lo = 1 ->                                                   \* ACALL
         Res(((pc + 2) \div 2048) * 2048 + (op \div 32) * 256 + b1, PushPC(m, B16(pc + 2)), 2)
    [] op = 0 -> Res(pc + 1, m, 1)
    [] op = 2 -> Res(W16(b1, b2), m, 2)                            \* LJMP
    [] op = 18 -> Res(W16(b1, b2), PushPC(m, B16(pc + 3)), 2)      \* LCALL
    [] op = 3 -> Res(pc + 1, SetA(m, (A(m) \div 2) + 128 * (A(m) % 2)), 1)   \* RR
    [] op = 19 -> Res(pc + 1, SetCY(SetA(m, (A(m) \div 2) + 128 * CY(m)), A(m) % 2), 1)  \* RRC
    [] op = 35 -> Res(pc + 1, SetA(m, B8(A(m) * 2) + Bit(A(m), 7)), 1)       \* RL
    [] op = 51 -> Res(pc + 1, SetCY(SetA(m, B8(A(m) * 2) + CY(m)), Bit(A(m), 7)), 1)     \* RLC
    [] op = 4 -> Res(pc + 1, SetA(m, B8(A(m) + 1)), 1)             \* INC A
    [] op = 20 -> Res(pc + 1, SetA(m, B8(A(m) - 1)), 1)            \* DEC A
    [] hi = 0 /\ lo > 4 -> Res(n, LET a == OpAddr(m, op, b1) IN Wr(m, a, B8(Rd(m, a) + 1)), 1)
    [] hi = 1 /\ lo > 4 -> Res(n, LET a == OpAddr(m, op, b1) IN Wr(m, a, B8(Rd(m, a) - 1)), 1)
    [] hi = 2 /\ alu -> Res(n, Add(m, v, 0), 1)
    [] hi = 3 /\ alu -> Res(n, Add(m, v, CY(m)), 1)
    [] hi = 4 /\ alu -> Res(n, SetA(m, A(m) | v), 1)
    [] hi = 5 /\ alu -> Res(n, SetA(m, A(m) & v), 1)
    [] hi = 6 /\ alu -> Res(n, SetA(m, A(m) ^^ v), 1)
    [] hi = 9 /\ alu -> Res(n, Sub(m, v, CY(m)), 1)
    \* logic on direct: ORL/ANL/XRL dir,A and dir,#
    [] op = 66 -> Res(pc + 2, Wr(m, Dir(b1), Rd(m, Dir(b1)) | A(m)), 1)
    [] op = 67 -> Res(pc + 3, Wr(m, Dir(b1), Rd(m, Dir(b1)) | b2), 2)
    [] op = 82 -> Res(pc + 2, Wr(m, Dir(b1), Rd(m, Dir(b1)) & A(m)), 1)
    [] op = 83 -> Res(pc + 3, Wr(m, Dir(b1), Rd(m, Dir(b1)) & b2), 2)
    [] op = 98 -> Res(pc + 2, Wr(m, Dir(b1), Rd(m, Dir(b1)) ^^ A(m)), 1)
    [] op = 99 -> Res(pc + 3, Wr(m, Dir(b1), Rd(m, Dir(b1)) ^^ b2), 2)
    \* conditional jumps
    [] op = 16 -> IF RdBit(m, b1) = 1 THEN Res(rel(3, b2), WrBit(m, b1, 0), 2) ELSE Res(pc + 3, m, 2)
    [] op = 32 -> Res(IF RdBitS(m, b1) = 1 THEN rel(3, b2) ELSE pc + 3, m, 2)
    [] op = 48 -> Res(IF RdBitS(m, b1) = 0 THEN rel(3, b2) ELSE pc + 3, m, 2)
    [] op = 64 -> Res(IF CY(m) = 1 THEN rel(2, b1) ELSE pc + 2, m, 2)
    [] op = 80 -> Res(IF CY(m) = 0 THEN rel(2, b1) ELSE pc + 2, m, 2)
    [] op = 96 -> Res(IF A(m) = 0 THEN rel(2, b1) ELSE pc + 2, m, 2)
    [] op = 112 -> Res(IF A(m) # 0 THEN rel(2, b1) ELSE pc + 2, m, 2)
    [] op = 128 -> Res(rel(2, b1), m, 2)                           \* SJMP
    [] op = 34 \/ op = 50 -> Res(W16(Top(m, 0), Top(m, 1)), Drop(m, 2), 2)   \* RET, RETI
    [] op = 115 -> Res(A(m) + DPTR(m), m, 2)                       \* JMP @A+DPTR
    \* bit operations
    [] op = 114 -> Res(pc + 2, SetCY(m, I(CY(m) = 1 \/ RdBitS(m, b1) = 1)), 2)
    [] op = 130 -> Res(pc + 2, SetCY(m, I(CY(m) = 1 /\ RdBitS(m, b1) = 1)), 2)
    [] op = 160 -> Res(pc + 2, SetCY(m, I(CY(m) = 1 \/ RdBitS(m, b1) = 0)), 2)
    [] op = 176 -> Res(pc + 2, SetCY(m, I(CY(m) = 1 /\ RdBitS(m, b1) = 0)), 2)
    [] op = 146 -> Res(pc + 2, WrBit(m, b1, CY(m)), 2)
    [] op = 162 -> Res(pc + 2, SetCY(m, RdBitS(m, b1)), 1)
    [] op = 178 -> Res(pc + 2, WrBit(m, b1, 1 - RdBit(m, b1)), 1)
    [] op = 179 -> Res(pc + 1, SetCY(m, 1 - CY(m)), 1)
    [] op = 194 -> Res(pc + 2, WrBit(m, b1, 0), 1)
    [] op = 195 -> Res(pc + 1, SetCY(m, 0), 1)
    [] op = 210 -> Res(pc + 2, WrBit(m, b1, 1), 1)
    [] op = 211 -> Res(pc + 1, SetCY(m, 1), 1)
    \* moves
    [] op = 116 -> Res(pc + 2, SetA(m, b1), 1)
    [] op = 117 -> Res(pc + 3, Wr(m, Dir(b1), b2), 2)
    [] hi = 7 /\ lo > 5 -> Res(pc + 2, Wr(m, OpAddr(m, op, 0), b1), 1)
    [] op = 131 -> Res(pc + 1, SetA(m, Rd(m, ROM(pc + 1 + A(m)))), 2)
    [] op = 147 -> Res(pc + 1, SetA(m, Rd(m, ROM(DPTR(m) + A(m)))), 2)
    [] op = 132 ->                                                 \* DIV AB
         IF Rd(m, SFR(aB)) = 0 THEN Res(pc + 1, SetFlags(m, 0, AC(m), 1), 4)
         ELSE LET b == Rd(m, SFR(aB)) IN
              Res(pc + 1, SetFlags(Wr(SetA(m, A(m) \div b), SFR(aB), A(m) % b), 0, AC(m), 0), 4)
    [] op = 164 -> LET p == A(m) * Rd(m, SFR(aB)) IN               \* MUL AB
         Res(pc + 1, SetFlags(Wr(SetA(m, Lo(p)), SFR(aB), Hi(p)), 0, AC(m), I(p > 255)), 4)
    [] op = 133 -> Res(pc + 3, Wr(m, Dir(b2), RdS(m, Dir(b1))), 2)  \* MOV dir,dir
    [] hi = 8 /\ lo > 5 -> Res(pc + 2, Wr(m, Dir(b1), v), 2)
    [] op = 144 -> Res(pc + 3, Wr2(m, SFR(aDPH), b1, SFR(aDPL), b2), 2)
    [] op = 163 -> LET d == B16(DPTR(m) + 1) IN Res(pc + 1, Wr2(m, SFR(aDPH), Hi(d), SFR(aDPL), Lo(d)), 2)
    [] hi = 10 /\ lo > 5 -> Res(pc + 2, Wr(m, OpAddr(m, op, 0), RdS(m, Dir(b1))), 2)
    [] hi = 11 /\ lo >= 4 ->                                       \* CJNE
         LET x == IF lo \in {4, 5} THEN A(m) ELSE Rd(m, OpAddr(m, op, 0))
             y == IF lo = 5 THEN RdS(m, Dir(b1)) ELSE b1
         IN Res(IF x # y THEN rel(3, b2) ELSE pc + 3, SetCY(m, I(x < y)), 2)
    [] op = 192 -> Res(pc + 2, Push(m, RdS(m, Dir(b1))), 2)
    [] op = 208 -> Res(pc + 2, Wr(Drop(m, 1), Dir(b1), Top(m, 0)), 2)
    [] op = 196 -> Res(pc + 1, SetA(m, (A(m) % 16) * 16 + A(m) \div 16), 1)
    [] hi = 12 /\ lo > 4 -> LET a == OpAddr(m, op, b1) IN          \* XCH
         Res(n, Wr(SetA(m, RdS(m, a)), a, A(m)), 1)
    [] op = 212 -> Res(pc + 1, DaA(m), 1)
    [] op = 213 -> LET a == Dir(b1) d == B8(Rd(m, Dir(b1)) - 1) IN \* DJNZ dir
         Res(IF d # 0 THEN rel(3, b2) ELSE pc + 3, Wr(m, a, d), 2)
    [] op \in {214, 215} -> LET a == Ind(m, op) x == Rd(m, a) IN   \* XCHD
         Res(pc + 1, Wr(SetA(m, (A(m) \div 16) * 16 + (x % 16)), a, (x \div 16) * 16 + (A(m) % 16)), 1)
    [] hi = 13 /\ lo > 7 -> LET a == Rn(m, op % 8) d == B8(Rd(m, a) - 1) IN
         Res(IF d # 0 THEN rel(2, b1) ELSE pc + 2, Wr(m, a, d), 2)
    [] op = 224 -> Res(pc + 1, SetA(m, Rd(m, XRAM(DPTR(m)))), 2)
    [] op \in {226, 227} -> Res(pc + 1, SetA(m, Rd(m, XRAM(W16(Rd(m, SFR(aP2)), Rd(m, Rn(m, op % 2)))))), 2)
    [] op = 240 -> Res(pc + 1, Wr(m, XRAM(DPTR(m)), A(m)), 2)
    [] op \in {242, 243} -> Res(pc + 1, Wr(m, XRAM(W16(Rd(m, SFR(aP2)), Rd(m, Rn(m, op % 2)))), A(m)), 2)
    [] op = 228 -> Res(pc + 1, SetA(m, 0), 1)
    [] op = 244 -> Res(pc + 1, SetA(m, 255 - A(m)), 1)
    [] hi = 14 /\ lo > 4 -> Res(n, SetA(m, v), 1)
    [] hi = 15 /\ lo > 4 -> Res(n, Wr(m, OpAddr(m, op, b1), A(m)), 1)
=============================================================================
