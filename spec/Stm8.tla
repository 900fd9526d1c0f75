-------------------------------- MODULE Stm8 --------------------------------
(* The STM8 instruction set (ST, PM0044 "STM8 CPU programming manual"): the effect of
   one instruction on registers and memory.  One 24 bit address space (space 0).
   Flags: V(7) - I1(5) H(4) I0(3) N(2) Z(1) C(0). *)
EXTENDS IsaMem

Stm8Settle(m) == m
M16(m, a) == W16(Rd(m, a), Rd(m, a + 1))
M24(m, a) == Rd(m, a) * 65536 + M16(m, a + 1)
W2(m, a, v) == Wr(Wr(m, a, Hi(v)), a + 1, Lo(v))

\* flags: a set of <<bit, value>>
Set(cc, s) == LET b == {x[1] : x \in s}
                  one == {x \in s : x[2] = 1}
                  f(i) == IF i \in b THEN (IF <<i, 1>> \in s THEN Pow2(i) ELSE 0) ELSE Bit(cc, i) * Pow2(i)
              IN f(0) + f(1) + f(2) + f(3) + f(4) + f(5) + f(6) + f(7)
C == 0 Z == 1 N == 2 I0 == 3 H == 4 I1 == 5 V == 7
NZ8(x) == {<<N, Bit(x, 7)>>, <<Z, I(x = 0)>>}
NZ16(x) == {<<N, Bit(x, 15)>>, <<Z, I(x = 0)>>}
fl(r, s) == [r EXCEPT !.CC = Set(r.CC, s)]
cy(r) == r.CC % 2

Add8(r, a, b, c) == LET x == B8(a + b + c) IN
  <<x, NZ8(x) \cup {<<C, CarryAt(a, b, c, 8)>>, <<H, CarryAt(a, b, c, 4)>>, <<V, OvAdd8(a, b, c)>>}>>
Sub8(r, a, b, c) == LET x == B8(a - b - c) IN
  <<x, NZ8(x) \cup {<<C, BorrowAt(a, b, c, 8)>>, <<V, OvSub8(a, b, c)>>}>>
Add16(a, b) == LET x == B16(a + b) IN
  <<x, NZ16(x) \cup {<<C, CarryAt(a, b, 0, 16)>>, <<H, CarryAt(a, b, 0, 8)>>, <<V, OvAdd16(a, b, 0)>>}>>
Cmp16(a, b) == NZ16(B16(a - b)) \cup {<<C, BorrowAt(a, b, 0, 16)>>, <<V, OvSub16(a, b, 0)>>}
Sub16(a, b) == <<B16(a - b), Cmp16(a, b) \cup {<<H, BorrowAt(a, b, 0, 8)>>}>>

Push1(p, v) == <<[p[1] EXCEPT !.SP = B16(@ - 1)], Wr(p[2], p[1].SP, v)>>
Push2(p, v) == Push1(Push1(p, Lo(v)), Hi(v))
Pop1(p) == <<[p[1] EXCEPT !.SP = B16(@ + 1)], p[2], Rd(p[2], p[1].SP + 1)>>
Pop2(p) == <<[p[1] EXCEPT !.SP = B16(@ + 2)], p[2], M16(p[2], p[1].SP + 1)>>

Done(r, m, pc) == [r |-> [r EXCEPT !.PC = pc], m |-> m, t |-> -1, u |-> << >>]

\* operand address and bytes used, high nibble as in the 8x..Fx columns; a: address of the operand bytes
Ea(r, m, p, h, a) ==
  CASE h = 1 -> <<r.SP + Rd(m, a), 1>>
    [] h = 11 -> <<Rd(m, a), 1>>
    [] h = 12 /\ p \in {0, 144} -> <<M16(m, a), 2>>
    [] h = 12 /\ p = 114 -> <<M16(m, M16(m, a)), 2>>
    [] h = 12 /\ p \in {146, 145} -> <<M16(m, Rd(m, a)), 1>>
    [] h = 13 /\ p = 0 -> <<M16(m, a) + r.X, 2>>
    [] h = 13 /\ p = 144 -> <<M16(m, a) + r.Y, 2>>
    [] h = 13 /\ p = 114 -> <<M16(m, M16(m, a)) + r.X, 2>>
    [] h = 13 /\ p = 145 -> <<M16(m, Rd(m, a)) + r.Y, 1>>
    [] h = 13 /\ p = 146 -> <<M16(m, Rd(m, a)) + r.X, 1>>
    [] h = 14 /\ p = 0 -> <<Rd(m, a) + r.X, 1>>
    [] h = 14 /\ p = 144 -> <<Rd(m, a) + r.Y, 1>>
    [] h = 15 /\ p = 0 -> <<r.X, 0>>
    [] h = 15 /\ p = 144 -> <<r.Y, 0>>

\* the same for the read-modify-write columns 0x..7x
EaM(r, m, p, h, a) ==
  CASE h = 0 -> <<r.SP + Rd(m, a), 1>>
    [] h = 3 /\ p = 0 -> <<Rd(m, a), 1>>
    [] h = 3 /\ p = 114 -> <<M16(m, M16(m, a)), 2>>
    [] h = 3 /\ p = 146 -> <<M16(m, Rd(m, a)), 1>>
    [] h = 4 /\ p = 114 -> <<M16(m, a) + r.X, 2>>
    [] h = 4 /\ p = 144 -> <<M16(m, a) + r.Y, 2>>
    [] h = 5 -> <<M16(m, a), 2>>
    [] h = 6 /\ p = 0 -> <<Rd(m, a) + r.X, 1>>
    [] h = 6 /\ p = 144 -> <<Rd(m, a) + r.Y, 1>>
    [] h = 6 /\ p = 114 -> <<M16(m, M16(m, a)) + r.X, 2>>
    [] h = 6 /\ p = 145 -> <<M16(m, Rd(m, a)) + r.Y, 1>>
    [] h = 6 /\ p = 146 -> <<M16(m, Rd(m, a)) + r.X, 1>>
    [] h = 7 /\ p = 0 -> <<r.X, 0>>
    [] h = 7 /\ p = 144 -> <<r.Y, 0>>

\* operation l of the read-modify-write columns on a word of n bits: <<result, flags>>
Rmw(l, x, n, c) ==
  LET top == Pow2(n - 1)
      md == Pow2(n)
      sgn == x \div top
      nz(y) == {<<N, y \div top>>, <<Z, I(y = 0)>>}
      res(y, s) == <<y, nz(y) \cup s>>
  IN CASE l = 0 -> res((md - x) % md, {<<V, I(x = top)>>, <<C, I(x # 0)>>})             \* NEG
       [] l = 3 -> res(md - 1 - x, {<<C, 1>>})                                          \* CPL
       [] l = 4 -> res(x \div 2, {<<C, x % 2>>})                                        \* SRL
       [] l = 6 -> res((x \div 2) + c * top, {<<C, x % 2>>})                            \* RRC
       [] l = 7 -> res((x \div 2) + sgn * top, {<<C, x % 2>>})                          \* SRA
       [] l = 8 -> res((x * 2) % md, {<<C, sgn>>})                                      \* SLL
       [] l = 9 -> res((x * 2 + c) % md, {<<C, sgn>>})                                  \* RLC
       [] l = 10 -> res((x - 1) % md, {<<V, I(x = top)>>})                              \* DEC
       [] l = 12 -> res((x + 1) % md, {<<V, I(x = top - 1)>>})                          \* INC
       [] l = 13 -> res(x, {})                                                          \* TNZ
       [] l = 14 -> LET k == Pow2(n \div 2) IN res((x % k) * k + x \div k, {})          \* SWAP
       [] l = 15 -> res(0, {})                                                          \* CLR

\* accumulator operation l with operand b: registers
Acc(r, l, b) ==
  LET a == r.A
      set(q) == fl([r EXCEPT !.A = q[1]], q[2])
      log(x) == <<x, NZ8(x)>>
  IN CASE l = 0 -> set(Sub8(r, a, b, 0))  [] l = 1 -> fl(r, Sub8(r, a, b, 0)[2])
       [] l = 2 -> set(Sub8(r, a, b, cy(r))) [] l = 4 -> set(log(a & b))
       [] l = 5 -> fl(r, NZ8(a & b))      [] l = 6 -> set(log(b))
       [] l = 8 -> set(log(a ^^ b))       [] l = 9 -> set(Add8(r, a, b, cy(r)))
       [] l = 10 -> set(log(a | b))       [] l = 11 -> set(Add8(r, a, b, 0))

Jcond(r, p, k) ==     \* k = condition number 0..15
  LET b(i) == Bit(r.CC, i)
      j == k \div 2
      f == IF p = 0
           THEN CASE j = 0 -> TRUE [] j = 1 -> b(C) = 0 /\ b(Z) = 0 [] j = 2 -> b(C) = 0 [] j = 3 -> b(Z) = 0
                  [] j = 4 -> b(V) = 0 [] j = 5 -> b(N) = 0 [] j = 6 -> b(Z) = 0 /\ b(N) = b(V) [] j = 7 -> b(N) = b(V)
           ELSE CASE j = 4 -> b(H) = 0 [] j = 6 -> b(I0) = 0 /\ b(I1) = 0
  IN f = (k % 2 = 0)

Stm8Exec(r, m) ==
  LET p0 == Rd(m, r.PC)
      pre == p0 \in {114, 144, 145, 146}
      p == IF pre THEN p0 ELSE 0
      a0 == IF pre THEN r.PC + 1 ELSE r.PC
      op == Rd(m, a0)
      a == a0 + 1                            \* operand bytes
      h == op \div 16
      l == op % 16
      n == Rd(m, a)
      nn == M16(m, a)
      nnn == M24(m, a)
      y == p \in {144, 145}                  \* works on Y
      xy == IF y THEN r.Y ELSE r.X
      setxy(q, v) == IF y THEN [q EXCEPT !.Y = v] ELSE [q EXCEPT !.X = v]
      go(q, k) == Done(q, m, a + k)
      to(q, pc) == Done(q, m, pc)
      w(q, mm, k) == Done(q, mm, a + k)
      pp(q, k) == Done(q[1], q[2], a + k)
      e == Ea(r, m, p, h, a)
      em == EaM(r, m, p, h, a)
      jr(k, t) == to(r, IF t THEN a + k + S8(Rd(m, a + k - 1)) ELSE a + k)
      seg == r.PC - B16(r.PC)
      ldw(q, v, k) == go(fl(q, NZ16(v)), k)
      ax(q, v, k) == go(fl(setxy(r, q[1]), q[2]), k)
      bitno == l \div 2
      bv == Rd(m, nn)
  IN
  CASE p = 114 /\ h = 0 ->                                               \* BTJT, BTJF
         LET b == Bit(bv, bitno) t == IF l % 2 = 0 THEN b = 1 ELSE b = 0
         IN Done(fl(r, {<<C, b>>}), m, IF t THEN a + 3 + S8(Rd(m, a + 2)) ELSE a + 3)
    [] p = 114 /\ h = 1 -> w(r, Wr(m, nn, SetBit(bv, bitno, 1 - (l % 2))), 2)             \* BSET, BRES
    [] p = 144 /\ h = 1 -> w(r, Wr(m, nn, SetBit(bv, bitno, IF l % 2 = 0 THEN 1 - Bit(bv, bitno) ELSE cy(r))), 2)
    [] h = 2 -> jr(1, Jcond(r, p, l))
    [] p = 114 /\ op = 169 -> LET q == Add16(r.Y, nn) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 2)
    [] p = 114 /\ op = 162 -> LET q == Sub16(r.Y, nn) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 2)
    [] p = 114 /\ op = 187 -> LET q == Add16(r.X, M16(m, nn)) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 2)
    [] p = 114 /\ op = 185 -> LET q == Add16(r.Y, M16(m, nn)) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 2)
    [] p = 114 /\ op = 176 -> LET q == Sub16(r.X, M16(m, nn)) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 2)
    [] p = 114 /\ op = 178 -> LET q == Sub16(r.Y, M16(m, nn)) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 2)
    [] p = 114 /\ op = 251 -> LET q == Add16(r.X, M16(m, r.SP + n)) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 1)
    [] p = 114 /\ op = 249 -> LET q == Add16(r.Y, M16(m, r.SP + n)) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 1)
    [] p = 114 /\ op = 240 -> LET q == Sub16(r.X, M16(m, r.SP + n)) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 1)
    [] p = 114 /\ op = 242 -> LET q == Sub16(r.Y, M16(m, r.SP + n)) IN go(fl([r EXCEPT !.Y = q[1]], q[2]), 1)
    [] op = 28 -> LET q == Add16(r.X, nn) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 2)
    [] op = 29 -> LET q == Sub16(r.X, nn) IN go(fl([r EXCEPT !.X = q[1]], q[2]), 2)
    [] op = 91 -> go([r EXCEPT !.SP = B16(@ + n)], 1)
    [] op = 82 -> go([r EXCEPT !.SP = B16(@ - n)], 1)
    [] op = 1 -> LET x == W16(r.A, Hi(xy)) IN go(fl([setxy(r, x) EXCEPT !.A = Lo(xy)], NZ16(x)), 0)    \* RRWA
    [] op = 2 -> LET x == W16(Lo(xy), r.A) IN go(fl([setxy(r, x) EXCEPT !.A = Hi(xy)], NZ16(x)), 0)    \* RLWA
    [] op = 49 -> w([r EXCEPT !.A = bv], Wr(m, nn, r.A), 2)                \* EXG A,longmem
    [] op = 65 -> go([r EXCEPT !.A = Lo(r.X), !.X = W16(Hi(r.X), r.A)], 0)
    [] op = 97 -> go([r EXCEPT !.A = Lo(r.Y), !.Y = W16(Hi(r.Y), r.A)], 0)
    [] op = 81 -> go([r EXCEPT !.X = r.Y, !.Y = r.X], 0)
    [] op = 128 ->                                                         \* IRET
         LET c == Pop1(<<r, m>>) x1 == Pop1(c) x2 == Pop2(x1) x3 == Pop2(x2) x4 == Pop1(x3) x5 == Pop2(x4)
         IN to([x5[1] EXCEPT !.CC = c[3], !.A = x1[3], !.X = x2[3], !.Y = x3[3]], x4[3] * 65536 + x5[3])
    [] op = 131 ->                                                         \* TRAP
         LET q == Push1(Push1(Push2(Push2(Push1(Push2(<<r, m>>, B16(a)), a \div 65536), r.Y), r.X), r.A), r.CC)
         IN Done(fl(q[1], {<<I1, 1>>, <<I0, 1>>}), q[2], 32772)
    [] op = 130 -> to(r, nnn)                                              \* INT
    [] op = 129 -> LET q == Pop2(<<r, m>>) IN to(q[1], (a - B16(a)) + q[3]) \* RET
    [] op = 135 -> LET q == Pop1(<<r, m>>) q2 == Pop2(q) IN to(q2[1], q[3] * 65536 + q2[3])
    [] op = 50 -> LET q == Pop1(<<r, m>>) IN w(q[1], Wr(m, nn, q[3]), 2)
    [] op = 59 -> pp(Push1(<<r, m>>, bv), 2)
    [] op = 75 -> pp(Push1(<<r, m>>, n), 1)
    [] op = 66 -> go(fl(setxy(r, Lo(xy) * r.A), {<<H, 0>>, <<C, 0>>}), 0)  \* MUL
    [] op = 98 ->                                                          \* DIV
         LET f == {<<N, 0>>, <<H, 0>>, <<V, 0>>} IN
         IF r.A = 0 THEN [go(fl(r, f \cup {<<C, 1>>}), 0) EXCEPT !.u = [CC |-> 2, A |-> 255, X |-> IF y THEN 0 ELSE 65535, Y |-> IF y THEN 65535 ELSE 0]]
         ELSE LET q == xy \div r.A IN go(fl([setxy(r, q) EXCEPT !.A = xy % r.A], f \cup {<<C, 0>>, <<Z, I(q = 0)>>}), 0)
    [] op = 101 ->                                                         \* DIVW
         LET f == {<<N, 0>>, <<H, 0>>, <<V, 0>>} IN
         IF r.Y = 0 THEN [go(fl(r, f \cup {<<C, 1>>}), 0) EXCEPT !.u = [CC |-> 2, X |-> 65535, Y |-> 65535]]
         ELSE LET q == r.X \div r.Y IN go(fl([r EXCEPT !.X = q, !.Y = r.X % r.Y], f \cup {<<C, 0>>, <<Z, I(q = 0)>>}), 0)
    [] op = 147 -> go(IF y THEN [r EXCEPT !.Y = r.X] ELSE [r EXCEPT !.X = r.Y], 0)
    [] op = 148 -> go([r EXCEPT !.SP = xy], 0)
    [] op = 150 -> go(setxy(r, r.SP), 0)
    [] op = 149 -> go(setxy(r, W16(r.A, Lo(xy))), 0)
    [] op = 151 -> go(setxy(r, W16(Hi(xy), r.A)), 0)
    [] op = 158 -> go([r EXCEPT !.A = Hi(xy)], 0)
    [] op = 159 -> go([r EXCEPT !.A = Lo(xy)], 0)
    [] op = 53 -> w(r, Wr(m, M16(m, a + 1), n), 3)                         \* MOV
    [] op = 69 -> w(r, Wr(m, Rd(m, a + 1), Rd(m, n)), 2)
    [] op = 85 -> w(r, Wr(m, M16(m, a + 2), Rd(m, nn)), 4)
    [] op = 132 -> LET q == Pop1(<<r, m>>) IN go([q[1] EXCEPT !.A = q[3]], 0)
    [] op = 134 -> LET q == Pop1(<<r, m>>) IN go([q[1] EXCEPT !.CC = q[3]], 0)
    [] op = 133 -> LET q == Pop2(<<r, m>>) IN go(setxy(q[1], q[3]), 0)
    [] op = 136 -> pp(Push1(<<r, m>>, r.A), 0)
    [] op = 138 -> pp(Push1(<<r, m>>, r.CC), 0)
    [] op = 137 -> pp(Push2(<<r, m>>, xy), 0)
    [] op = 140 -> go(fl(r, {<<C, 1 - cy(r)>>}), 0)
    [] op = 152 -> go(fl(r, {<<C, 0>>}), 0)
    [] op = 153 -> go(fl(r, {<<C, 1>>}), 0)
    [] op = 154 -> go(fl(r, {<<I1, 1>>, <<I0, 0>>}), 0)
    [] op = 155 -> go(fl(r, {<<I1, 1>>, <<I0, 1>>}), 0)
    [] op = 156 -> go(fl(r, {<<V, 0>>}), 0)
    [] op = 157 -> go(r, 0)
    [] op = 107 -> w(fl(r, NZ8(r.A)), Wr(m, r.SP + n, r.A), 1)
    [] op = 123 -> LET v == Rd(m, r.SP + n) IN go(fl([r EXCEPT !.A = v], NZ8(v)), 1)
    [] op \in {167, 175, 188, 189} ->                                      \* LDF
         LET ea == CASE op \in {188, 189} -> (IF p = 146 THEN M24(m, nn) ELSE nnn)
                     [] OTHER -> (IF p \in {145, 146} THEN M24(m, nn) ELSE nnn) + xy
             k == IF p \in {145, 146} THEN 2 ELSE 3
         IN IF op \in {175, 188} THEN LET v == Rd(m, ea) IN go(fl([r EXCEPT !.A = v], NZ8(v)), k)
            ELSE w(fl(r, NZ8(r.A)), Wr(m, ea, r.A), k)
    [] op = 172 -> to(r, IF p = 146 THEN M24(m, nn) ELSE nnn)              \* JPF
    [] op = 141 -> LET ret == IF p = 146 THEN a + 2 ELSE a + 3             \* CALLF
                       q == Push1(Push2(<<r, m>>, B16(ret)), ret \div 65536)
                   IN Done(q[1], q[2], IF p = 146 THEN M24(m, nn) ELSE nnn)
    [] op = 173 -> LET q == Push2(<<r, m>>, B16(a + 1)) IN Done(q[1], q[2], a + 1 + S8(n))     \* CALLR
    [] h >= 12 /\ l = 12 -> to(r, seg + e[1])                              \* JP
    [] h >= 12 /\ l = 13 -> LET q == Push2(<<r, m>>, B16(a + e[2])) IN Done(q[1], q[2], seg + e[1])
    [] op = 22 -> ldw([r EXCEPT !.Y = M16(m, e[1])], M16(m, e[1]), 1)
    [] op = 30 -> ldw([r EXCEPT !.X = M16(m, e[1])], M16(m, e[1]), 1)
    [] op = 23 -> w(fl(r, NZ16(r.Y)), W2(m, e[1], r.Y), 1)
    [] op = 31 -> w(fl(r, NZ16(r.X)), W2(m, e[1], r.X), 1)
    [] op = 174 -> ldw(setxy(r, nn), nn, 2)
    [] op = 163 -> go(fl(r, Cmp16(xy, nn)), 2)
    [] op = 19 -> go(fl(r, Cmp16(r.X, M16(m, e[1]))), 1)
    [] h \in {11, 12} /\ l = 14 -> ldw(setxy(r, M16(m, e[1])), M16(m, e[1]), e[2])
    [] h >= 13 /\ l = 14 -> ldw(setxy(r, M16(m, e[1])), M16(m, e[1]), e[2])
    [] h \in {11, 12} /\ l = 15 -> w(fl(r, NZ16(xy)), W2(m, e[1], xy), e[2])
    [] h >= 13 /\ l = 15 -> LET v == IF y THEN r.X ELSE r.Y IN w(fl(r, NZ16(v)), W2(m, e[1], v), e[2])
    [] h \in {11, 12} /\ l = 3 -> go(fl(r, Cmp16(xy, M16(m, e[1]))), e[2])
    [] h >= 13 /\ l = 3 -> go(fl(r, Cmp16(IF y THEN r.X ELSE r.Y, M16(m, e[1]))), e[2])
    [] h >= 11 /\ l = 7 -> w(fl(r, NZ8(r.A)), Wr(m, e[1], r.A), e[2])      \* LD mem,A
    [] h = 10 -> go(Acc(r, l, n), 1)
    [] h = 1 \/ h >= 11 -> go(Acc(r, l, Rd(m, e[1])), e[2])
    [] h = 4 /\ p = 0 -> LET q == Rmw(l, r.A, 8, cy(r)) IN go(fl([r EXCEPT !.A = q[1]], q[2]), 0)
    [] h = 5 /\ p # 114 -> LET q == Rmw(l, xy, 16, cy(r)) IN go(fl(setxy(r, q[1]), q[2]), 0)
    [] h <= 7 -> LET q == Rmw(l, Rd(m, em[1]), 8, cy(r))
                 IN w(fl(r, q[2]), IF l = 13 THEN m ELSE Wr(m, em[1], q[1]), em[2])
=============================================================================
