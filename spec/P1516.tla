------------------------------- MODULE P1516 -------------------------------
(* P1516 and P2223: the effect of one instruction of the two 32 bit processors.
   TLC integers are too small for 32 bit words, so a word is <<high half, low half>> and takes
   two cells: the halves of word n of space s are at s * 2^20 + 2 n (low) and + 2 n + 1 (high).
   Spaces: 0 memory (code and data), 1 registers R0..R15.
   r: K (1 = P1516, 2 = P2223), PC / PCh and F / Fh (halves of the program counter, which is R15,
   and of the flag register). *)
EXTENDS IsaMem

P1516Settle(m) == m
PxK == 65536
PxRd(m, a) == << Rd(m, a + 1), Rd(m, a) >>
PxWr(m, a, v) == Wr2(m, a, v[2], a + 1, v[1])
PxReg(n) == SPC + 2 * n
PxAt(v) == 2 * ((v[1] * PxK) + v[2])          \* cell of the memory word at address v < 2^17

PxZero == << 0, 0 >>
PxNot(x) == << PxK - 1 - x[1], PxK - 1 - x[2] >>
PxAnd(x, y) == << x[1] & y[1], x[2] & y[2] >>
PxOr(x, y) == << x[1] | y[1], x[2] | y[2] >>
PxXor(x, y) == << x[1] ^^ y[1], x[2] ^^ y[2] >>
PxNeg(x) == x[1] >= 32768                     \* bit 31
\* x + y + c: value, carry out of bit 31, signed overflow
PxAdd3(x, y, c) ==
  LET lo == x[2] + y[2] + c
      hi == x[1] + y[1] + (lo \div PxK)
      v == << hi % PxK, lo % PxK >>
  IN [v |-> v, c |-> hi \div PxK, o |-> I((PxNeg(x) = PxNeg(y)) /\ (PxNeg(v) # PxNeg(x)))]
PxAdd(x, y) == PxAdd3(x, y, 0).v
PxShl(x, c) == << ((2 * x[1]) % PxK) + (x[2] \div 32768), ((2 * x[2]) % PxK) + c >>
PxShr(x, c) == << (x[1] \div 2) + (32768 * c), (x[2] \div 2) + (32768 * (x[1] % 2)) >>
PxByte(x, i) == LET h == x[2 - (i \div 2)] IN IF i % 2 = 0 THEN h % 256 ELSE h \div 256
PxPutByte(x, i, b) ==
  [x EXCEPT ![2 - (i \div 2)] = IF i % 2 = 0 THEN (256 * (@ \div 256)) + b ELSE (256 * b) + (@ % 256)]
\* bytes of the 64 bit unsigned product
PxProd(x, y) ==
  LET col(k) == LET t(i) == IF i <= 3 /\ k - i >= 0 /\ k - i <= 3 THEN PxByte(x, i) * PxByte(y, k - i) ELSE 0
                IN t(0) + t(1) + t(2) + t(3)
      RECURSIVE go(_, _)
      go(k, c) == IF k = 8 THEN << >>
                  ELSE LET s == col(k) + c IN << s % 256 >> \o go(k + 1, s \div 256)
  IN go(0, 0)
PxLow(p) == << (256 * p[4]) + p[3], (256 * p[2]) + p[1] >>
PxHigh(p) == << (256 * p[8]) + p[7], (256 * p[6]) + p[5] >>
PxSx(h) == << IF h >= 32768 THEN PxK - 1 ELSE 0, h >>          \* sign extended half

\* flag register: S 0, C 1, Z 2, O 3 and, P2223 only, P 4, U 5
PxBit(f, n, v) == IF v = 1 THEN f | (2 ^ n) ELSE f & (PxK - 1 - (2 ^ n))
PxZS(f, v) == PxBit(PxBit(f, 2, I(v = PxZero)), 0, I(PxNeg(v)))
PxZ(f, v) == PxBit(f, 2, I(v = PxZero))

P1516Exec(r, m) ==
  LET K == r.K
      pc == << r.PCh, r.PC >>
      code == PxRd(m, PxAt(pc))
      next == PxAdd(pc, << 0, 1 >>)
      m1 == PxWr(m, PxReg(15), next)
      hi == code[1]
      lo == code[2]
      cc == hi \div 4096
      inst == (hi \div 256) % 16
      d == (hi \div 16) % 16
      a == hi % 16
      b == IF K = 1 THEN lo \div 4096 ELSE (lo \div 256) % 16
      R(n) == PxRd(m1, PxReg(n))
      D == R(d)
      A == R(a)
      B == R(b)
      f == r.F
      S == Bit(f, 0)
      C == Bit(f, 1)
      Z == Bit(f, 2)
      O == Bit(f, 3)
      fin(fw, mm) ==                            \* fw: whole flag word
        LET q == PxRd(mm, PxReg(15))
        IN [r |-> [r EXCEPT !.PC = q[2], !.PCh = q[1], !.F = fw[2], !.Fh = fw[1]], m |-> mm,
            t |-> IF K = 1 THEN 1 ELSE 4, u |-> << >>]
      done(ff, mm) == fin(<< r.Fh, ff >>, mm)
      reg(n, v) == PxWr(m1, PxReg(n), v)
      put(v) == done(f, reg(d, v))
      putf(v, ff) == done(ff, reg(d, v))
      nop == done(f, m1)
      call(to) == done(f, PxWr(PxWr(m1, PxReg(14), next), PxReg(15), to))
      addf(x) == PxBit(PxBit(PxZS(f, x.v), 1, x.c), 3, x.o)
      adds(x) == putf(x.v, addf(x))

      \* ---------------------------------------------------------------- P1516
      test1 == (cc % 2 = 0) \/ ((CASE cc \div 4 = 0 -> S [] cc \div 4 = 1 -> C [] cc \div 4 = 2 -> Z [] OTHER -> O) = (cc \div 2) % 2)
      op1 == (lo \div 128) % 32
      logic(v) == putf(v, PxZ(f, v))
      shift(v, c) == putf(v, PxBit(PxZ(f, v), 1, c))
      alu1 ==
        CASE op1 = 0 -> adds(PxAdd3(A, B, 0))
          [] op1 = 1 -> adds(PxAdd3(A, B, C))
          [] op1 = 2 -> adds(PxAdd3(A, PxNot(B), 1))
          [] op1 = 3 -> adds(PxAdd3(A, PxNot(B), C))
          [] op1 = 4 -> adds(PxAdd3(A, << 0, 1 >>, 0))
          [] op1 = 5 -> adds(PxAdd3(A, PxNot(<< 0, 1 >>), 1))
          [] op1 = 6 -> logic(PxAnd(A, B))
          [] op1 = 7 -> logic(PxOr(A, B))
          [] op1 = 8 -> logic(PxXor(A, B))
          [] op1 = 9 -> shift(PxShl(A, 0), I(PxNeg(A)))
          [] op1 = 10 -> shift(PxShr(A, 0), A[2] % 2)
          [] op1 = 11 -> shift(PxShl(A, C), I(PxNeg(A)))
          [] op1 = 12 -> shift(PxShr(A, C), A[2] % 2)
          [] op1 = 13 -> LET v == PxLow(PxProd(A, B)) IN putf(v, PxZS(f, v))
          [] op1 = 15 -> done(addf(PxAdd3(A, PxNot(B), 1)), m1)
          [] op1 = 16 -> shift(PxShr(A, I(PxNeg(A))), A[2] % 2)
          [] op1 = 17 -> done(PxBit(f, 1, 1), m1)
          [] op1 = 18 -> done(PxBit(f, 1, 0), m1)
          [] op1 = 19 -> LET v == PxHigh(PxProd(A, B)) IN putf(v, PxZS(f, v))
          [] OTHER -> nop
      exec1 ==
        CASE ~test1 -> nop
          [] inst >= 8 -> call(<< hi % 2048, lo >>)
          [] inst = 1 -> put(PxRd(m1, PxAt(A)))
          [] inst = 2 -> done(f, PxWr(m1, PxAt(A), D))
          [] inst = 3 -> put(A)
          [] inst = 4 -> put(<< 0, lo >>)
          [] inst = 5 -> put(<< D[1], lo >>)
          [] inst = 6 -> put(<< lo, D[2] >>)
          [] inst = 7 -> alu1
          [] OTHER -> nop

      \* ---------------------------------------------------------------- P2223
      test2 == CASE cc = 1 -> Z = 1 [] cc = 2 -> Z = 0 [] cc = 3 -> C = 1 [] cc = 4 -> C = 0
                 [] cc = 5 -> S = 1 [] cc = 6 -> S = 0 [] cc = 7 -> O = 1 [] cc = 8 -> O = 0
                 [] cc = 9 -> C = 1 /\ Z = 0 [] cc = 10 -> C = 0 \/ Z = 1
                 [] cc = 11 -> S = O [] cc = 12 -> S # O
                 [] cc = 13 -> Z = 0 /\ S = O [] cc = 14 -> Z = 1 \/ S # O [] OTHER -> TRUE
      putzs(v) == putf(v, PxZS(f, v))
      rot(v, c) == putf(v, PxBit(PxZS(f, v), 1, c))
      one ==
        CASE a = 0 -> put(<< 0, D[2] % 256 >>)
          [] a = 1 -> put(<< 0, D[2] >>)
          [] a = 2 -> put(IF D[2] % 256 >= 128 THEN << PxK - 1, 65280 + (D[2] % 256) >> ELSE << 0, D[2] % 256 >>)
          [] a = 3 -> put(PxSx(D[2]))
          [] a = 4 -> putzs(PxNot(D))
          [] a = 5 -> adds(PxAdd3(PxZero, PxNot(D), 1))
          [] a = 6 -> rot(PxShr(D, C), D[2] % 2)
          [] a = 7 -> rot(PxShl(D, C), I(PxNeg(D)))
          [] a = 8 -> rot(PxShl(D, 0), I(PxNeg(D)))
          [] a = 9 -> rot(PxShr(D, 0), D[2] % 2)
          [] a = 10 -> rot(PxShr(D, I(PxNeg(D))), D[2] % 2)
          [] a = 11 -> done(PxZS(f, D), m1)
          [] a = 12 -> done(PxBit(f, 1, 1), m1)
          [] a = 13 -> done(PxBit(f, 1, 0), m1)
          [] a = 14 -> put(<< r.Fh, f >>)
          [] OTHER -> fin(D, m1)
      imm == inst % 2 = 1
      s == IF imm THEN PxSx(lo) ELSE B                \* signed immediate or register
      u == IF imm THEN << 0, lo >> ELSE B             \* unsigned immediate or register
      alu2 ==
        CASE a = 0 /\ imm -> put(<< D[1], lo >>)
          [] a = 1 /\ imm -> put(<< lo, D[2] >>)
          [] a = 2 /\ imm -> put(u)
          [] a = 3 /\ imm -> put(s)
          [] a = 15 /\ imm -> putzs(<< D[1], D[2] & lo >>)
          [] a = 0 -> put(B)
          [] a = 3 -> put(IF PxNeg(B) THEN << PxK - 1, PxK - 1 >> ELSE PxZero)
          [] a = 15 -> putzs(PxAnd(D, B))
          [] a = 4 -> adds(PxAdd3(D, s, 0))
          [] a = 5 -> adds(PxAdd3(D, s, C))
          [] a = 6 -> adds(PxAdd3(D, PxNot(s), 1))
          [] a = 7 -> adds(PxAdd3(D, PxNot(s), C))
          [] a = 8 -> done(addf(PxAdd3(D, PxNot(s), 1)), m1)
          [] a = 9 -> putzs(PxLow(PxProd(D, s)))
          [] a = 10 -> put(PxAdd(D, s))
          [] a = 11 -> putzs(PxAnd(D, u))
          [] a = 12 -> done(PxZS(f, PxAnd(D, u)), m1)
          [] a = 13 -> putzs(PxOr(D, u))
          [] a = 14 -> putzs(PxXor(D, u))
          [] OTHER -> nop
      call2 == IF imm THEN call(PxAdd(D, << (IF a >= 8 THEN 65520 ELSE 0) + a, lo >>))
               ELSE call(<< hi % 256, lo >>)
      i == (IF lo >= 32768 THEN lo ELSE R(lo % 16)[2]) % 4       \* selected byte
      ext ==
        CASE a = 0 -> IF imm THEN put(PxRd(m1, 2 * lo)) ELSE done(f, PxWr(m1, 2 * lo, D))
          [] a = 1 ->
               IF imm THEN put(PxPutByte(D, i, B[2] % 256))
               ELSE LET y == PxByte(B, i)
                    IN IF Bit(lo, 14) = 0 THEN put(PxPutByte(D, 0, y))
                       ELSE IF Bit(lo, 13) = 1 /\ y >= 128 THEN put(<< PxK - 1, 65280 + y >>)
                       ELSE put(<< 0, y >>)
          [] OTHER -> IF b # 0 THEN (IF imm THEN nop ELSE put(IF b = 2 THEN << 0, 15 >> ELSE PxZero))
                      ELSE IF imm THEN fin(D, m1) ELSE put(<< r.Fh, f >>)
      \* memory: bits 24 update the base register, 25 load, 26 constant offset
      load == Bit(inst, 1) = 1
      const == Bit(inst, 2) = 1
      up == IF const THEN (Bit(f, 5) = 1) # load ELSE lo >= 32768
      pre == IF const THEN (Bit(f, 4) = 1) # load ELSE Bit(lo, 14) = 1
      moved == PxAdd(A, IF up THEN << 0, 1 >> ELSE << PxK - 1, PxK - 1 >>)
      at == PxAt(PxAdd(IF imm /\ pre THEN moved ELSE A, IF const THEN PxSx(lo) ELSE B))
      mem ==
        LET m2 == IF load THEN reg(d, PxRd(m1, at)) ELSE PxWr(m1, at, D)
        IN done(f, IF imm THEN PxWr(m2, PxReg(a), moved) ELSE m2)
      grp == inst \div 2
      exec2 ==
        CASE ~test2 -> nop
          [] cc = 15 /\ grp # 2 -> nop
          [] grp = 0 -> alu2
          [] grp = 1 -> one
          [] grp = 2 -> call2
          [] grp = 3 -> ext
          [] OTHER -> mem
  IN IF K = 1 THEN exec1 ELSE exec2
=============================================================================
