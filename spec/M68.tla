-------------------------------- MODULE M68 ---------------------------------
(* Motorola 6800 (r.K = 0), 6801 (r.K = 1) and 68HC11 (r.K = 2): the effect and the
   duration of one instruction.  CC: 1 1 H I N Z V C (bits 7 and 6 are S and X on the
   68HC11, left open there). *)
EXTENDS IsaMem

M68Settle(m) == m
B(m, a) == Rd(m, B16(a))
M16(m, a) == W16(B(m, a), B(m, a + 1))            \* big endian
WB(m, a, v) == Wr(m, B16(a), v)
WW(m, a, v) == WB(WB(m, a, Hi(v)), a + 1, Lo(v))
N(f, b) == SetBit(f, 3, b)
Z(f, b) == SetBit(f, 2, b)
V(f, b) == SetBit(f, 1, b)
C(f, b) == SetBit(f, 0, b)
H(f, b) == SetBit(f, 5, b)
NZ(f, x) == Z(N(f, Bit(x, 7)), I(x = 0))
NZ16(f, x) == Z(N(f, Bit(x, 15)), I(x = 0))
AddV(a, b, x, s) == I(Bit(a, s) = Bit(b, s) /\ Bit(a, s) # Bit(x, s))
SubV(a, b, x, s) == I(Bit(a, s) # Bit(b, s) /\ Bit(a, s) # Bit(x, s))
Rel(v) == IF v < 128 THEN v ELSE v - 256

\* flags of 8 bit addition and subtraction
FAdd(f, a, b, c) == LET x == B8(a + b + c) IN C(V(H(NZ(f, x), CarryAt(a, b, c, 4)), AddV(a, b, x, 7)), CarryAt(a, b, c, 8))
FSub(f, a, b, c) == LET x == B8(a - b - c) IN C(V(NZ(f, x), SubV(a, b, x, 7)), BorrowAt(a, b, c, 8))
FAdd16(f, a, b) == LET x == B16(a + b) IN C(V(NZ16(f, x), AddV(a, b, x, 15)), CarryAt(a, b, 0, 16))
FSub16(f, a, b) == LET x == B16(a - b) IN C(V(NZ16(f, x), SubV(a, b, x, 15)), BorrowAt(a, b, 0, 16))

\* read-modify-write operations: <<result, flags>>
RmwX(op, v, f) ==
  LET c == f % 2
      sh(x, co) == <<x, C(V(NZ(f, x), (Bit(x, 7) + co) % 2), co)>>
  IN CASE op = 0 -> LET x == B8(256 - v) IN <<x, C(V(NZ(f, x), I(x = 128)), I(x # 0))>>
       [] op = 3 -> <<255 - v, C(V(NZ(f, 255 - v), 0), 1)>>
       [] op = 4 -> sh(v \div 2, v % 2)
       [] op = 6 -> sh((v \div 2) + 128 * c, v % 2)
       [] op = 7 -> sh((v \div 2) + 128 * Bit(v, 7), v % 2)
       [] op = 8 -> sh(B8(v * 2), Bit(v, 7))
       [] op = 9 -> sh(B8(v * 2) + c, Bit(v, 7))
       [] op = 10 -> <<B8(v - 1), V(NZ(f, B8(v - 1)), I(v = 128))>>
       [] op = 12 -> <<B8(v + 1), V(NZ(f, B8(v + 1)), I(v = 127))>>
       [] op = 13 -> <<v, C(V(NZ(f, v), 0), 0)>>
       [] op = 15 -> <<0, C(V(NZ(f, 0), 0), 0)>>

\* 8 bit accumulator operations: <<accumulator, flags>>
Alu(op, a, b, f) ==
  CASE op = 0 -> <<B8(a - b), FSub(f, a, b, 0)>> [] op = 1 -> <<a, FSub(f, a, b, 0)>>
    [] op = 2 -> <<B8(a - b - (f % 2)), FSub(f, a, b, f % 2)>>
    [] op = 4 -> <<a & b, V(NZ(f, a & b), 0)>> [] op = 5 -> <<a, V(NZ(f, a & b), 0)>>
    [] op = 6 -> <<b, V(NZ(f, b), 0)>>
    [] op = 8 -> <<a ^^ b, V(NZ(f, a ^^ b), 0)>>
    [] op = 9 -> <<B8(a + b + (f % 2)), FAdd(f, a, b, f % 2)>>
    [] op = 10 -> <<a | b, V(NZ(f, a | b), 0)>>
    [] op = 11 -> <<B8(a + b), FAdd(f, a, b, 0)>>

Daa(r) ==
  LET l == r.A % 16
      c1 == IF l > 9 \/ Bit(r.CC, 5) = 1 THEN 6 ELSE 0
      c2 == IF r.A > 153 \/ r.CC % 2 = 1 THEN 96 ELSE 0
      x == B8(r.A + c1 + c2)
  IN [r EXCEPT !.A = x, !.CC = C(NZ(@, x), I(c2 # 0))]

Taken(k, f) ==
  LET n == Bit(f, 3) z == Bit(f, 2) v == Bit(f, 1) c == f % 2
      t == CASE k \div 2 = 0 -> TRUE [] k \div 2 = 1 -> c = 0 /\ z = 0 [] k \div 2 = 2 -> c = 0 [] k \div 2 = 3 -> z = 0
             [] k \div 2 = 4 -> v = 0 [] k \div 2 = 5 -> n = 0 [] k \div 2 = 6 -> n = v [] k \div 2 = 7 -> z = 0 /\ n = v
  IN IF k % 2 = 0 THEN t ELSE ~t

RECURSIVE FDiv(_, _, _, _)
FDiv(i, rem, q, x) ==
  IF i = 0 THEN <<q, rem>>
  ELSE LET d == TLCEval(2 * rem) g == d >= x
       IN FDiv(i - 1, TLCEval(IF g THEN d - x ELSE d), TLCEval(2 * q + I(g)), x)

Push(p, v) == <<[p[1] EXCEPT !.SP = B16(@ - 1)], WB(p[2], p[1].SP, v)>>
Push16(p, v) == Push(Push(p, Lo(v)), Hi(v))

M68Exec(r, m) ==
  LET op0 == Rd(m, r.PC)
      K == r.K
      pre == K = 2 /\ op0 \in {24, 26, 205}
      p == IF pre THEN op0 ELSE 0
      op == IF pre THEN B(m, r.PC + 1) ELSE op0
      o == r.PC + IF pre THEN 2 ELSE 1              \* address of the operands
      ixr == IF p \in {24, 205} THEN r.IY ELSE r.IX \* base of indexed addressing
      tg == IF p \in {24, 26} THEN "IY" ELSE "IX"   \* index register operated on
      f == r.CC
      x2 == op \div 16
      lo == op % 16
      mo == x2 % 4                                  \* 0 immediate, 1 direct, 2 indexed, 3 extended
      acc == IF op < 192 THEN "A" ELSE "B"
      D == W16(r.A, r.B)
      ea == CASE mo = 0 -> o [] mo = 1 -> B(m, o) [] mo = 2 -> B16(ixr + B(m, o)) [] mo = 3 -> M16(m, o)
      n8 == IF mo = 3 THEN 2 ELSE 1
      n16 == IF mo \in {0, 3} THEN 2 ELSE 1
      fix(c) == c | 192
      R(q, mm, pc, t, u) == [r |-> [q EXCEPT !.PC = B16(pc), !.CC = fix(@)], m |-> mm,
                             t |-> IF t = 0 THEN -1 ELSE t + I(pre),
                             u |-> IF K = 2 /\ "CC" \notin DOMAIN u THEN u @@ [CC |-> 192] ELSE u]
      g(q, len, t) == R(q, m, o + len, t, << >>)
      gm(q, mm, len, t) == R(q, mm, o + len, t, << >>)
      T(a) == a[(IF K = 0 THEN 0 ELSE 1) + 1]       \* 6800 or later
      t8 == T(<<<<2, 3, 5, 4>>, <<2, 3, 4, 4>>>>)[mo + 1]
      ts == T(<<<<0, 4, 6, 5>>, <<0, 3, 4, 4>>>>)[mo + 1]
      tl == T(<<<<3, 4, 6, 5>>, <<3, 4, 5, 5>>>>)[mo + 1]
      tw == T(<<<<0, 5, 7, 6>>, <<0, 4, 5, 5>>>>)[mo + 1]
      ta == T(<<<<3, 4, 6, 5>>, <<4, 5, 6, 6>>>>)[mo + 1]
      w16 == M16(m, ea)
      setD(q, v) == [q EXCEPT !.A = Hi(v), !.B = Lo(v)]
      call(pc, len, t) == LET s == Push16(<<r, m>>, B16(o + len)) IN R(s[1], s[2], pc, t, << >>)
      reg == IF x2 = 4 THEN "A" ELSE "B"
      bm == B(m, o + 1)                             \* mask of the bit instructions (direct and indexed)
      bea == IF op \in {18, 19, 20, 21} THEN B(m, o) ELSE B16(ixr + B(m, o))
      bt == IF op \in {18, 19, 20, 21} THEN 6 ELSE 7
      br == B16(o + 3 + Rel(B(m, o + 2)))
  IN
  CASE op = 1 -> g(r, 0, 2)
    [] op = 2 /\ K = 2 -> IF r.IX = 0 THEN R([r EXCEPT !.IX = 65535, !.CC = C(V(Z(@, 0), 0), 1)], m, o, 41, [A |-> 255, B |-> 255])
                          ELSE g([setD(r, D % r.IX) EXCEPT !.IX = D \div r.IX, !.CC = C(V(Z(@, I(D < r.IX)), 0), 0)], 0, 41)
    [] op = 3 /\ K = 2 -> IF r.IX <= D
                          THEN R([r EXCEPT !.IX = 65535, !.CC = C(V(Z(@, 0), 1), I(r.IX = 0))], m, o, 41, [A |-> 255, B |-> 255])
                          ELSE LET d == FDiv(16, D, 0, r.IX)
                               IN g([setD(r, d[2]) EXCEPT !.IX = d[1], !.CC = C(V(Z(@, I(d[1] = 0)), 0), 0)], 0, 41)
    [] op = 4 -> LET x == D \div 2 IN g([setD(r, x) EXCEPT !.CC = C(V(NZ16(@, x), D % 2), D % 2)], 0, 3)
    [] op = 5 -> LET x == B16(D * 2) IN g([setD(r, x) EXCEPT !.CC = C(V(NZ16(@, x), (Bit(D, 15) + Bit(x, 15)) % 2), Bit(D, 15))], 0, 3)
    [] op = 6 -> g([r EXCEPT !.CC = r.A], 0, 2)
    [] op = 7 -> g([r EXCEPT !.A = f], 0, 2)
    [] op = 8 -> LET x == B16(r[tg] + 1) IN g([r EXCEPT ![tg] = x, !.CC = Z(@, I(x = 0))], 0, T(<<4, 3>>))
    [] op = 9 -> LET x == B16(r[tg] - 1) IN g([r EXCEPT ![tg] = x, !.CC = Z(@, I(x = 0))], 0, T(<<4, 3>>))
    [] op = 10 -> g([r EXCEPT !.CC = V(@, 0)], 0, 2) [] op = 11 -> g([r EXCEPT !.CC = V(@, 1)], 0, 2)
    [] op = 12 -> g([r EXCEPT !.CC = C(@, 0)], 0, 2) [] op = 13 -> g([r EXCEPT !.CC = C(@, 1)], 0, 2)
    [] op = 14 -> g([r EXCEPT !.CC = SetBit(@, 4, 0)], 0, 2) [] op = 15 -> g([r EXCEPT !.CC = SetBit(@, 4, 1)], 0, 2)
    [] op = 16 -> g([r EXCEPT !.A = B8(@ - r.B), !.CC = FSub(@, r.A, r.B, 0)], 0, 2)
    [] op = 17 -> g([r EXCEPT !.CC = FSub(@, r.A, r.B, 0)], 0, 2)
    [] op = 22 -> g([r EXCEPT !.B = r.A, !.CC = V(NZ(@, r.A), 0)], 0, 2)
    [] op = 23 -> g([r EXCEPT !.A = r.B, !.CC = V(NZ(@, r.B), 0)], 0, 2)
    [] op = 25 -> R(Daa(r), m, o, 2, [CC |-> 2 + IF K = 2 THEN 192 ELSE 0])
    [] op = 27 -> g([r EXCEPT !.A = B8(@ + r.B), !.CC = FAdd(@, r.A, r.B, 0)], 0, 2)
    [] op \in {18, 30} -> R(r, m, IF ((255 - B(m, bea)) & bm) = 0 THEN br ELSE o + 3, bt, << >>)
    [] op \in {19, 31} -> R(r, m, IF (B(m, bea) & bm) = 0 THEN br ELSE o + 3, bt, << >>)
    [] op \in {20, 28} -> LET x == B(m, bea) | bm IN gm([r EXCEPT !.CC = V(NZ(@, x), 0)], WB(m, bea, x), 2, bt)
    [] op \in {21, 29} -> LET x == B(m, bea) & (255 - bm) IN gm([r EXCEPT !.CC = V(NZ(@, x), 0)], WB(m, bea, x), 2, bt)
    [] x2 = 2 -> R(r, m, o + 1 + IF Taken(lo, f) THEN Rel(B(m, o)) ELSE 0, T(<<4, 3>>), << >>)
    [] op = 48 -> g([r EXCEPT ![tg] = B16(r.SP + 1)], 0, T(<<4, 3>>)) [] op = 49 -> g([r EXCEPT !.SP = B16(@ + 1)], 0, T(<<4, 3>>))
    [] op = 50 -> g([r EXCEPT !.A = B(m, r.SP + 1), !.SP = B16(@ + 1)], 0, 4)
    [] op = 51 -> g([r EXCEPT !.B = B(m, r.SP + 1), !.SP = B16(@ + 1)], 0, 4)
    [] op = 52 -> g([r EXCEPT !.SP = B16(@ - 1)], 0, T(<<4, 3>>)) [] op = 53 -> g([r EXCEPT !.SP = B16(r[tg] - 1)], 0, T(<<4, 3>>))
    [] op \in {54, 55} -> LET s == Push(<<r, m>>, IF op = 54 THEN r.A ELSE r.B) IN gm(s[1], s[2], 0, T(<<4, 3>>))
    [] op = 56 -> g([[r EXCEPT !.SP = B16(@ + 2)] EXCEPT ![tg] = M16(m, r.SP + 1)], 0, 5)
    [] op = 57 -> R([r EXCEPT !.SP = B16(@ + 2)], m, M16(m, r.SP + 1), 5, << >>)
    [] op = 58 -> g([r EXCEPT ![tg] = B16(@ + r.B)], 0, 3)
    [] op = 59 -> IF K < 2
                  THEN R([r EXCEPT !.CC = B(m, r.SP + 1), !.B = B(m, r.SP + 2), !.A = B(m, r.SP + 3), !.IX = M16(m, r.SP + 4), !.SP = B16(@ + 7)],
                         m, M16(m, r.SP + 6), 10, << >>)
                  ELSE R([r EXCEPT !.CC = B(m, r.SP + 1), !.B = B(m, r.SP + 2), !.A = B(m, r.SP + 3), !.IX = M16(m, r.SP + 4),
                                   !.IY = M16(m, r.SP + 6), !.SP = B16(@ + 9)], m, M16(m, r.SP + 8), 12, << >>)
    [] op = 60 -> LET s == Push16(<<r, m>>, r[tg]) IN gm(s[1], s[2], 0, 4)
    [] op = 61 -> LET x == r.A * r.B IN g([setD(r, x) EXCEPT !.CC = C(@, Bit(x, 7))], 0, 10)
    [] op = 110 -> R(r, m, ea, T(<<4, 3>>), << >>) [] op = 126 -> R(r, m, ea, 3, << >>)
    [] x2 \in {4, 5} -> LET x == RmwX(lo, r[reg], f) IN g([[r EXCEPT ![reg] = x[1]] EXCEPT !.CC = x[2]], 0, 2)
    [] x2 \in {6, 7} -> LET x == RmwX(lo, B(m, ea), f) IN
         gm([r EXCEPT !.CC = x[2]], IF lo = 13 THEN m ELSE WB(m, ea, x[1]), n8, IF x2 = 6 THEN T(<<7, 6>>) ELSE 6)
    [] op = 141 -> call(o + 1 + Rel(B(m, o)), 1, T(<<8, 6>>))
    [] op = 143 -> g([setD(r, r[tg]) EXCEPT ![tg] = D], 0, 3)
    [] lo = 3 /\ op < 192 -> IF p \in {26, 205} THEN g([r EXCEPT !.CC = FSub16(@, D, w16)], n16, ta)
                             ELSE g([setD(r, B16(D - w16)) EXCEPT !.CC = FSub16(@, D, w16)], n16, ta)
    [] lo = 3 -> g([setD(r, B16(D + w16)) EXCEPT !.CC = FAdd16(@, D, w16)], n16, ta)
    [] lo = 7 -> gm([r EXCEPT !.CC = V(NZ(@, r[acc]), 0)], WB(m, ea, r[acc]), n8, ts)
    [] lo = 12 /\ op < 192 -> IF K = 0 THEN R([r EXCEPT !.CC = Z(@, I(r.IX = w16))], m, o + n16, ta, [CC |-> 10])
                              ELSE g([r EXCEPT !.CC = FSub16(@, r[tg], w16)], n16, ta)
    [] lo = 12 -> g([setD(r, w16) EXCEPT !.CC = V(NZ16(@, w16), 0)], n16, tl)
    [] lo = 13 /\ op < 192 -> call(ea, n8, IF mo = 1 THEN 5 ELSE IF mo = 2 THEN T(<<8, 6>>) ELSE T(<<9, 6>>))
    [] lo = 13 -> gm([r EXCEPT !.CC = V(NZ16(@, D), 0)], WW(m, ea, D), n8, tw)
    [] lo = 14 -> LET rg == IF op < 192 THEN "SP" ELSE tg IN g([[r EXCEPT ![rg] = w16] EXCEPT !.CC = V(NZ16(@, w16), 0)], n16, tl)
    [] lo = 15 -> LET v == r[IF op < 192 THEN "SP" ELSE tg] IN gm([r EXCEPT !.CC = V(NZ16(@, v), 0)], WW(m, ea, v), n8, tw)
    [] OTHER -> LET x == Alu(lo, r[acc], B(m, ea), f) IN g([[r EXCEPT ![acc] = x[1]] EXCEPT !.CC = x[2]], n8, t8)
=============================================================================
