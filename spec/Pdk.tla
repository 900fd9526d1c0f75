-------------------------------- MODULE Pdk ---------------------------------
(* Padauk PDK13, PDK14 and PDK15 cores (r.K = 13, 14, 15): the effect of one instruction.
   One 13/14/15 bit word per instruction; the three cores share the operations and differ
   in the width of the address fields.  F: OV AC C Z (bits 3..0).
   Spaces: 0 program, 1 RAM, 2 I/O registers (0 is F, 2 is SP: kept in the record). *)
EXTENDS IsaMem

PdkSettle(m) == m
PAdd(a, b, c) == LET x == a + b + c
                 IN <<B8(x), I(B8(x) = 0) + 2 * CarryAt(a, b, c, 8) + 4 * CarryAt(a, b, c, 4) + 8 * ((CarryAt(a, b, c, 8) + CarryAt(a, b, c, 7)) % 2)>>
PSub(a, b, c) == LET x == B8(a - b - c)
                 IN <<x, I(x = 0) + 2 * BorrowAt(a, b, c, 8) + 4 * BorrowAt(a, b, c, 4) + 8 * ((BorrowAt(a, b, c, 8) + BorrowAt(a, b, c, 7)) % 2)>>
PZ(f, v) == SetBit(f, 0, I(v = 0))
PC1(f, b) == SetBit(f, 1, b)

\* operations with one operand: <<result, flags>>
PUn(k, v, f) ==
  LET c == Bit(f, 1)
  IN CASE k = "not" -> <<255 - v, PZ(f, 255 - v)>>
       [] k = "neg" -> <<B8(256 - v), PZ(f, B8(256 - v))>>
       [] k = "sr" -> <<v \div 2, PC1(f, v % 2)>>
       [] k = "sl" -> <<B8(2 * v), PC1(f, Bit(v, 7))>>
       [] k = "src" -> <<(v \div 2) + 128 * c, PC1(f, v % 2)>>
       [] k = "slc" -> <<B8(2 * v) + c, PC1(f, Bit(v, 7))>>
       [] k = "swap" -> <<(v % 16) * 16 + (v \div 16), f>>
       [] k \in {"inc", "izsn"} -> PAdd(v, 1, 0)
       [] k \in {"dec", "dzsn"} -> PSub(v, 1, 0)
       [] k = "addc" -> PAdd(v, c, 0)
       [] k = "subc" -> PSub(v, c, 0)
       [] k = "clear" -> <<0, f>>
PLog(x, f) == <<x, PZ(f, x)>>
\* operations with two operands, a is the destination
PBin(n, a, b, f) ==
  LET c == Bit(f, 1)
  IN CASE n = 0 -> PAdd(a, b, 0) [] n = 1 -> PSub(a, b, 0) [] n = 2 -> PAdd(a, b, c) [] n = 3 -> PSub(a, b, c)
       [] n = 4 -> PLog(a & b, f) [] n = 5 -> PLog(a | b, f) [] n = 6 -> PLog(a ^^ b, f) [] n = 7 -> <<b, f>>
PM1(g) == CASE g = 32 -> "addc" [] g = 33 -> "subc" [] g = 34 -> "izsn" [] g = 35 -> "dzsn" [] g = 36 -> "inc" [] g = 37 -> "dec"
            [] g = 38 -> "clear" [] g = 40 -> "not" [] g = 41 -> "neg" [] g = 42 -> "sr" [] g = 43 -> "sl" [] g = 44 -> "src" [] g = 45 -> "slc"
PA1(l) == CASE l = 0 -> "addc" [] l = 1 -> "subc" [] l = 2 -> "izsn" [] l = 3 -> "dzsn" [] l = 8 -> "not" [] l = 9 -> "neg" [] l = 10 -> "sr"
            [] l = 11 -> "sl" [] l = 12 -> "src" [] l = 13 -> "slc" [] l = 14 -> "swap"

PdkExec(r, m) ==
  LET op == Rd(m, r.PC)
      K == r.K
      mw == 2 ^ (K - 7)                        \* size of the memory field
      iw == mw \div 2                          \* size of the I/O field
      g == op \div mw
      ma == op % mw
      k8 == op % 256
      f == r.F
      ram(a) == Rd(m, SPC + a)
      WR(a, v) == Wr(m, SPC + a, v)
      Io(a) == CASE a = 0 -> r.F [] a = 2 -> r.SP [] OTHER -> Rd(m, 2 * SPC + a)
      WIo(q, a, v) == CASE a = 0 -> <<[q EXCEPT !.F = v], m>> [] a = 2 -> <<[q EXCEPT !.SP = v], m>> [] OTHER -> <<q, Wr(m, 2 * SPC + a, v)>>
      R(q, mm, pc) == [r |-> [q EXCEPT !.PC = pc], m |-> mm, t |-> -1, u |-> << >>]
      RU(q, mm, fm) == [r |-> [q EXCEPT !.PC = r.PC + 1], m |-> mm, t |-> -1, u |-> [F |-> fm]]
      n(q) == R(q, m, r.PC + 1)
      nm(q, mm) == R(q, mm, r.PC + 1)
      sk(q, mm, c) == R(q, mm, r.PC + IF c THEN 2 ELSE 1)
      io(p) == R(p[1], p[2], r.PC + 1)
      mi == IF K = 13 THEN 16 ELSE op \div 16  \* high part of the codes without operand
      base == IF K = 13 THEN 16 ELSE 96        \* 0x10 / 0x60
      misc == IF K = 13 THEN 48 ELSE 112       \* 0x30 / 0x70
      unA(k) == LET x == PUn(k, r.A, f) IN sk([r EXCEPT !.A = x[1], !.F = x[2]], m, k \in {"izsn", "dzsn"} /\ x[1] = 0)
      unM(k) == LET x == PUn(k, ram(ma), f) IN sk([r EXCEPT !.F = x[2]], WR(ma, x[1]), k \in {"izsn", "dzsn"} /\ x[1] = 0)
      binA(i, v) == LET x == PBin(i, r.A, v, f) IN n([r EXCEPT !.A = x[1], !.F = x[2]])
      binM(i) == LET x == PBin(i, ram(ma), r.A, f) IN nm([r EXCEPT !.F = x[2]], WR(ma, x[1]))
      ceq(v, ne) == sk([r EXCEPT !.F = PSub(r.A, v, 0)[2]], m, (r.A = v) # ne)
      \* bit number and address of the bit instructions
      ib == (op \div iw) % 8
      ia == op % iw
      jw == IF K = 13 THEN 1024 ELSE IF K = 14 THEN 2048 ELSE 4096
      ioop == CASE K = 13 -> (op \div 32) [] K = 14 -> (op \div 64) [] K = 15 -> (op \div 128)
      ioxor == IF K = 15 THEN 1 ELSE 3
      iow == IF K = 13 THEN 4 ELSE IF K = 14 THEN 6 ELSE 2
      ior == iow + 1
      idx == IF K = 13 THEN 224 ELSE IF K = 14 THEN 896 ELSE 1792
      idm == IF K = 13 THEN 32 ELSE IF K = 14 THEN 128 ELSE 256
      ret(q) == R([q EXCEPT !.SP = B8(@ - 2)], m, ram(B8(r.SP - 2)) + 256 * ram(B8(r.SP - 1)))
      immb == IF K = 14 THEN 40 ELSE 80        \* 0x28 / 0x50
      imm == IF K = 13 THEN (CASE op \div 256 = 16 -> 0 [] op \div 256 = 17 -> 1 [] op \div 256 = 18 -> 2 [] op \div 256 = 20 -> 4
                               [] op \div 256 = 21 -> 5 [] op \div 256 = 22 -> 6 [] op \div 256 = 23 -> 7 [] OTHER -> -1)
             ELSE IF op \div 256 \in immb..(immb + 7) THEN op \div 256 - immb ELSE -1
      \* bit instructions on memory: kind 0 t0sn 1 t1sn 2 set0 3 set1
      mbk == IF K = 13 THEN (IF op \div 256 \in {2, 3} THEN 2 * (op \div 256 - 2) + Bit(op, 4) ELSE -1)
             ELSE IF g \in 64..79 THEN (g - 64) \div 4 ELSE -1
      mba == IF K = 13 THEN op % 16 ELSE ia
      \* reads and writes of one bit
      bitop(kind, v, b, wr(_)) == CASE kind = 0 -> sk(r, m, Bit(v, b) = 0) [] kind = 1 -> sk(r, m, Bit(v, b) = 1)
                                    [] kind = 2 -> wr(SetBit(v, b, 0)) [] kind = 3 -> wr(SetBit(v, b, 1))
      wio(v) == io(WIo(r, ia, v))
      wmem(v) == nm(r, WR(mba, v))
  IN
  CASE op = 0 -> n(r)
    [] op = base + 7 -> R(r, m, r.PC + r.A)
    [] op \in base..(base + 14) -> unA(PA1(op - base))
    [] op = misc -> n(r)
    [] op = misc + 2 -> nm([r EXCEPT !.SP = B8(@ + 2)], Wr2(m, SPC + r.SP, r.A, SPC + r.SP + 1, r.F))
    [] op = misc + 3 -> n([r EXCEPT !.SP = B8(@ - 2), !.F = ram(B8(r.SP - 1)), !.A = ram(B8(r.SP - 2))])
    [] op = misc + 10 -> ret(r)
    [] op = misc + 12 -> n([r EXCEPT !.A = B8(@ * Rd(m, 2 * SPC + 8))])
    [] op \div 256 = (IF K = 13 THEN 1 ELSE 2) -> ret([r EXCEPT !.A = k8])
    [] op \div jw = 6 /\ op < 8 * jw -> R(r, m, op % jw)
    [] op \div jw = 7 -> R([r EXCEPT !.SP = B8(@ + 2)], Wr2(m, SPC + r.SP, B8(r.PC + 1), SPC + r.SP + 1, (r.PC + 1) \div 256), op % jw)
    [] op \div idm = idx \div idm -> IF op % 2 = 1 THEN n([r EXCEPT !.A = ram(ram((op % idm) - 1))]) ELSE nm(r, WR(ram(op % idm), r.A))
    [] mbk >= 0 -> bitop(mbk, ram(mba), IF K = 13 THEN (op \div 32) % 8 ELSE ib, wmem)
    [] imm \in {0, 1, 4, 5, 6, 7} -> binA(imm, k8)
    [] imm \in {2, 3} -> ceq(k8, imm = 3)
    [] g \in 48..63 -> bitop((g - 48) \div 4, Io(ia), ib, wio)
    [] ioop = ioxor -> io(WIo(r, ia, r.A ^^ Io(ia)))
    [] ioop = iow -> io(WIo(r, ia, r.A))
    [] ioop = ior -> n([r EXCEPT !.A = Io(ia)])
    [] (K = 14 /\ g \in 8..11) \/ (K = 15 /\ g \in 92..95) -> LET p == WIo(r, ia, SetBit(Io(ia), ib, Bit(f, 1)))
                                IN R([p[1] EXCEPT !.F = PC1(@, Bit(Io(ia), ib))], p[2], r.PC + 1)
    [] K > 13 /\ g = 12 -> n([r EXCEPT !.F = PSub(r.A, ram(ma), 0)[2]])
    [] K > 13 /\ g = 13 -> n([r EXCEPT !.F = PSub(ram(ma), r.A, 0)[2]])
    [] K > 13 /\ g = 14 -> LET x == PSub(ram(ma), r.A, 0) IN RU([r EXCEPT !.A = x[1], !.F = PZ(0, x[1])], m, 254)
    [] K > 13 /\ g = 15 -> LET x == PSub(r.A, ram(ma), 0) IN RU([r EXCEPT !.F = PZ(0, x[1])], WR(ma, x[1]), 254)
    [] g \in 16..22 -> binM(g - 16)
    [] g = 23 -> nm(r, WR(ma, r.A))
    [] g \in 24..31 -> binA(g - 24, ram(ma))
    [] g = 39 -> nm([r EXCEPT !.A = ram(ma)], WR(ma, r.A))
    [] g \in 32..45 -> unM(PM1(g))
    [] g = 46 -> ceq(ram(ma), FALSE)
    [] K > 13 /\ g = 47 -> ceq(ram(ma), TRUE)
=============================================================================
