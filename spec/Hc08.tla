-------------------------------- MODULE Hc08 --------------------------------
(* Freescale HC08 (r.K = 0) and HCS08 (r.K = 1): the effect of one instruction, and its
   duration in HCS08 bus cycles.  CCR: V 1 1 H I N Z C. *)
EXTENDS IsaMem

Hc08Settle(m) == m
B(m, a) == Rd(m, B16(a))
M16(m, a) == W16(B(m, a), B(m, a + 1))            \* big endian
WB(m, a, v) == Wr(m, B16(a), v)
WW(m, a, v) == WB(WB(m, a, Hi(v)), a + 1, Lo(v))
N(f, b) == SetBit(f, 2, b)
Z(f, b) == SetBit(f, 1, b)
V(f, b) == SetBit(f, 7, b)
C(f, b) == SetBit(f, 0, b)
H(f, b) == SetBit(f, 4, b)
IM(f, b) == SetBit(f, 3, b)
NZ(f, x) == Z(N(f, Bit(x, 7)), I(x = 0))
NZ0(f, x) == V(NZ(f, x), 0)
NZ16(f, x) == V(Z(N(f, Bit(x, 15)), I(x = 0)), 0)
AddV(a, b, x, s) == I(Bit(a, s) = Bit(b, s) /\ Bit(a, s) # Bit(x, s))
SubV(a, b, x, s) == I(Bit(a, s) # Bit(b, s) /\ Bit(a, s) # Bit(x, s))
Rel(v) == IF v < 128 THEN v ELSE v - 256

FAdd(f, a, b, c) == LET x == B8(a + b + c) IN C(V(H(NZ(f, x), CarryAt(a, b, c, 4)), AddV(a, b, x, 7)), CarryAt(a, b, c, 8))
FSub(f, a, b, c) == LET x == B8(a - b - c) IN C(V(NZ(f, x), SubV(a, b, x, 7)), BorrowAt(a, b, c, 8))
FSub16(f, a, b) == LET x == B16(a - b) IN C(V(NZ16(f, x), SubV(a, b, x, 15)), BorrowAt(a, b, 0, 16))

\* read-modify-write operations: <<result, flags>>
Rmw(op, v, f) ==
  LET c == f % 2
      sh(x, co) == <<x, C(V(NZ(f, x), (Bit(x, 7) + co) % 2), co)>>
  IN CASE op = 0 -> LET x == B8(256 - v) IN <<x, C(V(NZ(f, x), I(x = 128)), I(x # 0))>>
       [] op = 3 -> <<255 - v, C(V(NZ(f, 255 - v), 0), 1)>>
       [] op = 4 -> sh(v \div 2, v % 2)
       [] op = 6 -> sh((v \div 2) + 128 * c, v % 2)
       [] op = 7 -> sh((v \div 2) + 128 * Bit(v, 7), v % 2)
       [] op = 8 -> sh(B8(v * 2), Bit(v, 7))
       [] op = 9 -> sh(B8(v * 2) + c, Bit(v, 7))
       [] op = 10 -> <<B8(v - 1), V(NZ(f, B8(v - 1)), I(v = 128))>>
       [] op = 12 -> <<B8(v + 1), V(NZ(f, B8(v + 1)), I(v = 127))>>
       [] op = 13 -> <<v, V(NZ(f, v), 0)>>
       [] op = 15 -> <<0, V(NZ(f, 0), 0)>>

\* operations with the accumulator (X for CPX, LDX): <<result, flags>>
Alu(op, a, b, f) ==
  CASE op = 0 -> <<B8(a - b), FSub(f, a, b, 0)>> [] op \in {1, 3} -> <<a, FSub(f, a, b, 0)>>
    [] op = 2 -> <<B8(a - b - (f % 2)), FSub(f, a, b, f % 2)>>
    [] op = 4 -> <<a & b, NZ0(f, a & b)>> [] op = 5 -> <<a, NZ0(f, a & b)>>
    [] op \in {6, 14} -> <<b, NZ0(f, b)>>
    [] op = 8 -> <<a ^^ b, NZ0(f, a ^^ b)>>
    [] op = 9 -> <<B8(a + b + (f % 2)), FAdd(f, a, b, f % 2)>>
    [] op = 10 -> <<a | b, NZ0(f, a | b)>>
    [] op = 11 -> <<B8(a + b), FAdd(f, a, b, 0)>>

\* decimal adjust; the reference manual lists the sums of packed BCD numbers only
DaaOk(r) ==
  LET c == r.CC % 2 h == Bit(r.CC, 4) u == r.A \div 16 l == r.A % 16
  IN IF h = 1 THEN l <= 3 /\ (c = 0 \/ u <= 3)
     ELSE c = 0 \/ u <= 2
Daa(r) ==
  LET h == Bit(r.CC, 4) c == r.CC % 2
      c2 == c = 1 \/ r.A > 153
      x == B8(r.A + (IF h = 1 \/ r.A % 16 > 9 THEN 6 ELSE 0) + (IF c2 THEN 96 ELSE 0))
  IN [r EXCEPT !.A = x, !.CC = C(NZ(@, x), I(c2))]

Taken(k, f) ==
  LET n == Bit(f, 2) z == Bit(f, 1) v == Bit(f, 7) c == f % 2
      t == CASE k \div 2 = 0 -> TRUE [] k \div 2 = 1 -> c = 0 /\ z = 0 [] k \div 2 = 2 -> c = 0 [] k \div 2 = 3 -> z = 0
             [] k \div 2 = 4 -> Bit(f, 4) = 0 [] k \div 2 = 5 -> n = 0 [] k \div 2 = 6 -> Bit(f, 3) = 0
             [] k \div 2 = 7 -> FALSE                 \* BIL: the IRQ pin is not active
             [] k \div 2 = 8 -> n = v [] k \div 2 = 9 -> z = 0 /\ n = v
  IN IF k % 2 = 0 THEN t ELSE ~t

Push(p, v) == <<[p[1] EXCEPT !.SP = B16(@ - 1)], WB(p[2], p[1].SP, v)>>
Push16(p, v) == Push(Push(p, Lo(v)), Hi(v))

Hc08Exec(r, m) ==
  LET op0 == Rd(m, r.PC)
      pre == op0 = 158
      op == IF pre THEN B(m, r.PC + 1) ELSE op0
      o == r.PC + IF pre THEN 2 ELSE 1              \* address of the operands
      HX == W16(r.H, r.X)
      base == IF pre THEN r.SP ELSE HX
      f == r.CC
      x2 == op \div 16
      lo == op % 16
      R(q, mm, pc, t, u) == [r |-> [q EXCEPT !.PC = B16(pc), !.CC = @ | 96], m |-> mm,
                             t |-> IF t < 0 \/ r.K = 0 THEN -1 ELSE t + I(pre), u |-> u]
      g(q, len, t) == R(q, m, o + len, t, << >>)
      gm(q, mm, len, t) == R(q, mm, o + len, t, << >>)
      setHX(q, v) == [q EXCEPT !.H = Hi(v), !.X = Lo(v)]
      ldHX(v, len, t) == g([setHX(r, v) EXCEPT !.CC = NZ16(@, v)], len, t)
      cpHX(v, len, t) == g([r EXCEPT !.CC = FSub16(@, HX, v)], len, t)
      stHX(a, len, t) == gm([r EXCEPT !.CC = NZ16(@, HX)], WW(m, a, HX), len, t)
      \* operand of columns A to F
      ea == CASE x2 = 10 -> o [] x2 = 11 -> B(m, o) [] x2 = 12 -> M16(m, o) [] x2 = 13 -> B16(base + M16(m, o))
              [] x2 = 14 -> B16(base + B(m, o)) [] x2 = 15 -> HX
      n8 == CASE x2 \in {12, 13} -> 2 [] x2 = 15 -> 0 [] OTHER -> 1
      tm == CASE x2 = 10 -> 2 [] x2 \in {11, 14, 15} -> 3 [] OTHER -> 4
      \* operand of columns 3, 6, 7
      ra == CASE x2 = 3 -> B(m, o) [] x2 = 6 -> B16(base + B(m, o)) [] x2 = 7 -> HX
      rn == IF x2 = 7 THEN 0 ELSE 1
      rt == IF x2 = 7 THEN 4 ELSE 5
      reg == IF x2 = 4 THEN "A" ELSE "X"
      call(pc, len, t) == LET s == Push16(<<r, m>>, B16(o + len)) IN R(s[1], s[2], pc, t, << >>)
      br(len, c, mm, q, t) == R(q, mm, o + len + IF c THEN Rel(B(m, o + len - 1)) ELSE 0, t, << >>)
      bit == (op \div 2) % 8
      mov(v, a, q, len, t) == gm([q EXCEPT !.CC = NZ0(@, v)], WB(m, a, v), len, t)
      inc(q) == setHX(q, B16(HX + 1))
  IN
  CASE x2 = 0 /\ ~pre -> LET b == Bit(B(m, B(m, o)), bit) IN br(2, (b = 1) = (op % 2 = 0), m, [r EXCEPT !.CC = C(@, b)], 5)
    [] x2 = 1 -> gm(r, WB(m, B(m, o), SetBit(B(m, B(m, o)), bit, 1 - (op % 2))), 1, 5)
    [] x2 = 2 -> br(1, Taken(lo, f), m, r, 3)
    [] op \in 144..147 -> br(1, Taken(lo + 16, f), m, r, 3)
    \* 16 bit operations
    [] op = 69 -> ldHX(M16(m, o), 2, 3) [] op = 85 -> ldHX(M16(m, B(m, o)), 1, 4)
    [] op = 50 -> ldHX(M16(m, M16(m, o)), 2, 5)
    [] pre /\ op = 174 -> ldHX(M16(m, HX), 0, 4) [] pre /\ op = 190 -> ldHX(M16(m, HX + M16(m, o)), 2, 5)
    [] pre /\ op = 206 -> ldHX(M16(m, HX + B(m, o)), 1, 4) [] pre /\ op = 254 -> ldHX(M16(m, r.SP + B(m, o)), 1, 4)
    [] op = 53 -> stHX(B(m, o), 1, 4) [] op = 150 -> stHX(M16(m, o), 2, 5) [] pre /\ op = 255 -> stHX(r.SP + B(m, o), 1, 4)
    [] op = 101 -> cpHX(M16(m, o), 2, 3) [] op = 117 -> cpHX(M16(m, B(m, o)), 1, 5)
    [] op = 62 -> cpHX(M16(m, M16(m, o)), 2, 6) [] pre /\ op = 243 -> cpHX(M16(m, r.SP + B(m, o)), 1, 5)
    \* compare and branch, decrement and branch
    [] op \in {65, 81} -> br(2, r[reg] = B(m, o), m, r, 4)
    [] op = 49 -> br(2, r.A = B(m, ra), m, r, 5)
    [] op = 97 -> br(2, r.A = B(m, ra), m, IF pre THEN r ELSE inc(r), 5)
    [] op = 113 -> br(1, r.A = B(m, ra), m, inc(r), 5)
    [] op \in {75, 91} -> LET v == B8(r[reg] - 1) IN br(1, v # 0, m, [r EXCEPT ![reg] = v], 4)
    [] lo = 11 /\ x2 \in {3, 6, 7} -> LET v == B8(B(m, ra) - 1) IN br(rn + 1, v # 0, WB(m, ra, v), r, IF x2 = 7 THEN 6 ELSE 7)
    \* special operations
    [] op = 66 -> LET p == r.A * r.X IN g([r EXCEPT !.A = Lo(p), !.X = Hi(p), !.CC = C(H(@, 0), 0)], 0, 5)
    [] op = 82 -> LET d == W16(r.H, r.A) IN
         IF r.X = 0 \/ d \div r.X > 255 THEN R([r EXCEPT !.CC = C(@, 1)], m, o, 6, [A |-> 255, H |-> 255, CC |-> 2])
         ELSE g([r EXCEPT !.A = d \div r.X, !.H = d % r.X, !.CC = C(Z(@, I(d < r.X)), 0)], 0, 6)
    [] op = 98 -> g([r EXCEPT !.A = (@ \div 16) + (16 * (@ % 16))], 0, 1)
    [] op = 114 -> IF DaaOk(r) THEN R(Daa(r), m, o, 1, [CC |-> 128]) ELSE R(r, m, o, 1, [A |-> 255, CC |-> 135])
    [] op = 78 -> mov(B(m, B(m, o)), B(m, o + 1), r, 2, 5) [] op = 94 -> mov(B(m, B(m, o)), HX, inc(r), 1, 5)
    [] op = 110 -> mov(B(m, o), B(m, o + 1), r, 2, 4) [] op = 126 -> mov(B(m, HX), B(m, o), inc(r), 1, 5)
    [] x2 \in {4, 5} -> LET x == Rmw(lo, r[reg], f) IN g([[r EXCEPT ![reg] = x[1]] EXCEPT !.CC = x[2]], 0, 1)
    [] x2 \in {3, 6, 7} -> LET x == Rmw(lo, B(m, ra), f) IN
         gm([r EXCEPT !.CC = x[2]], IF lo = 13 THEN m ELSE WB(m, ra, x[1]), rn, IF lo = 13 THEN rt - 1 ELSE rt)
    [] op = 128 -> R([r EXCEPT !.CC = B(m, r.SP + 1), !.A = B(m, r.SP + 2), !.X = B(m, r.SP + 3), !.SP = B16(@ + 5)],
                     m, M16(m, r.SP + 4), 9, << >>)
    [] op = 129 -> R([r EXCEPT !.SP = B16(@ + 2)], m, M16(m, r.SP + 1), 6, << >>)
    [] op = 131 -> LET s == Push(Push(Push(Push16(<<r, m>>, B16(o)), r.X), r.A), f | 96)
                   IN R([s[1] EXCEPT !.CC = IM(@, 1)], s[2], M16(s[2], 65532), 11, << >>)
    [] op = 132 -> g([r EXCEPT !.CC = r.A], 0, 1) [] op = 133 -> g([r EXCEPT !.A = f | 96], 0, 1)
    [] op = 134 -> g([r EXCEPT !.A = B(m, r.SP + 1), !.SP = B16(@ + 1)], 0, 3)
    [] op = 136 -> g([r EXCEPT !.X = B(m, r.SP + 1), !.SP = B16(@ + 1)], 0, 3)
    [] op = 138 -> g([r EXCEPT !.H = B(m, r.SP + 1), !.SP = B16(@ + 1)], 0, 3)
    [] op \in {135, 137, 139} -> LET s == Push(<<r, m>>, CASE op = 135 -> r.A [] op = 137 -> r.X [] op = 139 -> r.H) IN gm(s[1], s[2], 0, 2)
    [] op = 140 -> g([r EXCEPT !.H = 0, !.CC = V(NZ(@, 0), 0)], 0, 1)
    [] op \in {142, 143} -> g([r EXCEPT !.CC = IM(@, 0)], 0, -1)
    [] op = 148 -> g([r EXCEPT !.SP = B16(HX - 1)], 0, 2) [] op = 149 -> g(setHX(r, B16(r.SP + 1)), 0, 2)
    [] op = 151 -> g([r EXCEPT !.X = r.A], 0, 1) [] op = 159 -> g([r EXCEPT !.A = r.X], 0, 1)
    [] op = 152 -> g([r EXCEPT !.CC = C(@, 0)], 0, 1) [] op = 153 -> g([r EXCEPT !.CC = C(@, 1)], 0, 1)
    [] op = 154 -> g([r EXCEPT !.CC = IM(@, 0)], 0, 1) [] op = 155 -> g([r EXCEPT !.CC = IM(@, 1)], 0, 1)
    [] op = 156 -> g([r EXCEPT !.SP = (Hi(@) * 256) + 255], 0, 1)
    [] op = 157 -> g(r, 0, 1)
    [] op = 167 -> g([r EXCEPT !.SP = B16(@ + Rel(B(m, o)))], 1, 2)
    [] op = 173 -> call(o + 1 + Rel(B(m, o)), 1, 5)
    [] op = 175 -> g(setHX(r, B16(HX + Rel(B(m, o)))), 1, 2)
    [] lo = 7 -> gm([r EXCEPT !.CC = NZ0(@, r.A)], WB(m, ea, r.A), n8, IF x2 = 15 THEN 2 ELSE tm)
    [] lo = 15 -> gm([r EXCEPT !.CC = NZ0(@, r.X)], WB(m, ea, r.X), n8, IF x2 = 15 THEN 2 ELSE tm)
    [] lo = 12 -> R(r, m, ea, tm, << >>)
    [] lo = 13 -> call(ea, n8, tm + 2)
    [] lo \in {3, 14} -> LET x == Alu(lo, r.X, B(m, ea), f) IN g([r EXCEPT !.X = x[1], !.CC = x[2]], n8, tm)
    [] OTHER -> LET x == Alu(lo, r.A, B(m, ea), f) IN g([r EXCEPT !.A = x[1], !.CC = x[2]], n8, tm)
=============================================================================
