-------------------------------- MODULE ST7 ---------------------------------
(* ST7: the effect of one instruction.  One space of 64K; CC: - - - H I N Z C.
   The prefixes 90, 91 and 92 select the index register Y, indirection with Y and
   indirection with X; a pointer is a byte or a word in page 0.
   The stack lies in the page that SP selects; LD S,... loads its low byte. *)
EXTENDS IsaMem

ST7Settle(m) == m

ST7Exec(r, m) ==
  LET P(a) == Rd(m, a % 65536)
      W(a) == 256 * P(a) + P(a + 1)
      b0 == P(r.PC)
      pre == IF b0 \in {144, 145, 146} THEN b0 ELSE 0
      o == r.PC + (IF pre = 0 THEN 0 ELSE 1)       \* where the operation code is
      op == P(o)
      hi == op \div 16
      lo == op % 16
      k1 == P(o + 1)
      k2 == P(o + 2)
      onY == pre \in {144, 145}
      ind == pre \in {145, 146}
      ix == IF onY THEN r.Y ELSE r.X
      short == IF ind THEN P(k1) ELSE k1
      long == IF ind THEN W(k1) ELSE 256 * k1 + k2
      llen == IF ind THEN 1 ELSE 2
      \* effective address and number of operand bytes of a row
      ea == CASE hi \in {3, 11} -> short
              [] hi = 12 -> long
              [] hi = 13 -> (long + ix) % 65536
              [] hi \in {6, 14} -> short + ix
              [] hi \in {7, 15} -> ix
              [] OTHER -> 0
      n == CASE hi \in {4, 5, 7, 15} -> 0
             [] hi \in {12, 13} -> llen
             [] OTHER -> 1
      nx == (o + 1 + n) % 65536
      v == IF hi = 10 THEN k1 ELSE P(ea)
      rel(d, at) == (at + (IF d > 127 THEN d - 256 ELSE d)) % 65536
      A == r.A
      C == r.CC % 2
      fl == r.CC
      nz(f, x) == SetBit(SetBit(f, 1, I(B8(x) = 0)), 2, Bit(B8(x), 7))
      nzc(f, x, c) == SetBit(nz(f, x), 0, c)
      res(q, mm, pc) == [r |-> [q EXCEPT !.PC = pc % 65536], m |-> mm, t |-> -1, u |-> << >>]
      go(q) == res(q, m, nx)
      g1(q) == res(q, m, o + 1)
      toA(x, f) == go([r EXCEPT !.A = B8(x), !.CC = f])
      cc(f) == go([r EXCEPT !.CC = f])
      ixset(q, x) == IF onY THEN [q EXCEPT !.Y = x] ELSE [q EXCEPT !.X = x]
      add(c) == toA(A + v + c, SetBit(nzc(fl, A + v + c, CarryAt(A, v, c, 8)), 4, CarryAt(A, v, c, 4)))
      sub(c) == toA(A + 512 - v - c, nzc(fl, A + 512 - v - c, I(A < v + c)))
      cp(x) == cc(nzc(fl, x + 256 - v, I(x < v)))
      \* rows 3 to 7: read, modify and write
      w == CASE hi = 4 -> A [] hi = 5 -> ix [] OTHER -> P(ea)
      rmw(x, f) == CASE hi = 4 -> go([r EXCEPT !.A = x, !.CC = f])
                     [] hi = 5 -> go([ixset(r, x) EXCEPT !.CC = f])
                     [] OTHER -> res([r EXCEPT !.CC = f], Wr(m, ea, x), nx)
      \* stack
      push(mm, sp, x) == Wr(mm, sp % 65536, x)
      push2(x, pc) == res([r EXCEPT !.SP = r.SP - 2], Wr2(m, r.SP, B8(x), r.SP - 1, (x \div 256) % 256), pc)
      pushed(x) == res([r EXCEPT !.SP = r.SP - 1], push(m, r.SP, x), o + 1)
      top == P(r.SP + 1)
      popped == [r EXCEPT !.SP = r.SP + 1]
      low(x) == (r.SP \div 256) * 256 + x
      cond == LET k == (op \div 2) % 8
                  x == CASE k = 0 -> TRUE
                         [] k = 1 -> fl % 4 = 0
                         [] k = 2 -> C = 0
                         [] k = 3 -> Bit(fl, 1) = 0
                         [] k = 4 -> Bit(fl, 4) = 0
                         [] k = 5 -> Bit(fl, 2) = 0
                         [] OTHER -> Bit(fl, 3) = 0
              IN x = (op % 2 = 0)
      bit == (op \div 2) % 8
  IN
  CASE hi = 0 -> LET c == Bit(P(short), bit)
                 IN res([r EXCEPT !.CC = SetBit(fl, 0, c)], m, IF (c = 1) = (op % 2 = 0) THEN rel(k2, o + 3) ELSE o + 3)
    [] hi = 1 -> res(r, Wr(m, short, SetBit(P(short), bit, 1 - (op % 2))), o + 2)
    [] hi = 2 -> res(r, m, IF cond THEN rel(short, o + 2) ELSE o + 2)
    [] op = 66 -> g1([ixset(r, (ix * A) \div 256) EXCEPT !.A = B8(ix * A), !.CC = SetBit(SetBit(fl, 0, 0), 4, 0)])
    [] hi \in 3 .. 7 ->
         (CASE lo = 0 -> rmw(B8(256 - w), nzc(fl, 256 - w, I(w # 0)))
            [] lo = 3 -> rmw(255 - w, nzc(fl, 255 - w, 1))
            [] lo = 4 -> rmw(w \div 2, nzc(fl, w \div 2, w % 2))
            [] lo = 6 -> LET x == 128 * C + (w \div 2) IN rmw(x, nzc(fl, x, w % 2))
            [] lo = 7 -> LET x == 128 * Bit(w, 7) + (w \div 2) IN rmw(x, nzc(fl, x, w % 2))
            [] lo = 8 -> rmw(B8(2 * w), nzc(fl, 2 * w, Bit(w, 7)))
            [] lo = 9 -> rmw(B8(2 * w + C), nzc(fl, 2 * w + C, Bit(w, 7)))
            [] lo = 10 -> rmw(B8(w + 255), nz(fl, w + 255))
            [] lo = 12 -> rmw(B8(w + 1), nz(fl, w + 1))
            [] lo = 13 -> cc(nz(fl, w))
            [] lo = 14 -> LET x == 16 * (w % 16) + (w \div 16) IN rmw(x, nz(fl, x))
            [] lo = 15 -> rmw(0, nz(fl, 0)))
    [] op = 128 -> res([r EXCEPT !.CC = P(r.SP + 1), !.A = P(r.SP + 2), !.X = P(r.SP + 3), !.SP = r.SP + 5], m, W(r.SP + 4))
    [] op = 129 -> res([r EXCEPT !.SP = r.SP + 2], m, W(r.SP + 1))
    [] op = 132 -> g1([popped EXCEPT !.A = top])
    [] op = 133 -> g1(ixset(popped, top))
    [] op = 134 -> g1([popped EXCEPT !.CC = top])
    [] op = 136 -> pushed(A)
    [] op = 137 -> pushed(ix)
    [] op = 138 -> pushed(fl)
    [] op = 147 -> g1(IF onY THEN [r EXCEPT !.Y = r.X] ELSE [r EXCEPT !.X = r.Y])
    [] op = 148 -> g1([r EXCEPT !.SP = low(ix)])
    [] op = 149 -> g1([r EXCEPT !.SP = low(A)])
    [] op = 150 -> g1(ixset(r, r.SP % 256))
    [] op = 151 -> g1(ixset(r, A))
    [] op = 152 -> g1([r EXCEPT !.CC = SetBit(fl, 0, 0)])
    [] op = 153 -> g1([r EXCEPT !.CC = SetBit(fl, 0, 1)])
    [] op = 154 -> g1([r EXCEPT !.CC = SetBit(fl, 3, 0)])
    [] op = 155 -> g1([r EXCEPT !.CC = SetBit(fl, 3, 1)])
    [] op = 156 -> g1([r EXCEPT !.SP = 383])
    [] op = 157 -> g1(r)
    [] op = 158 -> g1([r EXCEPT !.A = r.SP % 256])
    [] op = 159 -> g1([r EXCEPT !.A = ix])
    [] op = 173 -> push2((o + 2) % 65536, rel(short, o + 2))
    [] hi >= 10 ->
         (CASE lo = 0 -> sub(0)
            [] lo = 1 -> cp(A)
            [] lo = 2 -> sub(C)
            [] lo = 3 -> cp(ix)
            [] lo = 4 -> toA(A & v, nz(fl, A & v))
            [] lo = 5 -> cc(nz(fl, A & v))
            [] lo = 6 -> toA(v, nz(fl, v))
            [] lo = 7 -> res([r EXCEPT !.CC = nz(fl, A)], Wr(m, ea, A), nx)
            [] lo = 8 -> toA(A ^^ v, nz(fl, A ^^ v))
            [] lo = 9 -> add(C)
            [] lo = 10 -> toA(A | v, nz(fl, A | v))
            [] lo = 11 -> add(0)
            [] lo = 12 -> res(r, m, ea)
            [] lo = 13 -> push2(nx, ea)
            [] lo = 14 -> go([ixset(r, v) EXCEPT !.CC = nz(fl, v)])
            [] lo = 15 -> res([r EXCEPT !.CC = nz(fl, ix)], Wr(m, ea, ix), nx))
=============================================================================
