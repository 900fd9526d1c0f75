------------------------------ MODULE M68HC12 -------------------------------
(* Motorola 68HC12: the effect of one instruction.  CC: S X H I N Z V C; the stack pointer points
   to the last byte pushed; an instruction cannot set X.  PPAGE is the memory cell 0x35. *)
EXTENDS M68

M68HC12Settle(m) == m

\* indexed addressing: postbyte at a; ea effective address, n bytes, r registers after it,
\* ip address of the pointer (indirect modes)
XbType(p) == IF Bit(p, 5) = 0 THEN 1
             ELSE IF (p & 231) = 231 THEN 6 ELSE IF (p & 231) = 227 THEN 5
             ELSE IF (p & 192) # 192 THEN 3 ELSE IF (p & 228) = 224 THEN 2 ELSE 4
XbBase(r, i, next) == CASE i = 0 -> r.IX [] i = 1 -> r.IY [] i = 2 -> r.SP [] OTHER -> next
XbEa(r, m, a) ==
  LET p == B(m, a)
      t == XbType(p)
      i == (p \div 8) % 4
      j == p \div 64
      D == W16(r.A, r.B)
      e(ea, n, q) == [ea |-> B16(ea), n |-> n, r |-> q, ip |-> 0]
      ind(ip, n) == [ea |-> M16(m, ip), n |-> n, r |-> r, ip |-> B16(ip)]
  IN CASE t = 1 -> LET o == p % 32 IN e(XbBase(r, j, a + 1) + (IF o >= 16 THEN o - 32 ELSE o), 1, r)
       [] t = 2 -> IF Bit(p, 1) = 0 THEN e(XbBase(r, i, a + 2) + B(m, a + 1) - (256 * (p % 2)), 2, r)
                   ELSE e(XbBase(r, i, a + 3) + M16(m, a + 1), 3, r)
       [] t = 3 -> LET q == p % 16
                       d == IF q >= 8 THEN q - 16 ELSE q + 1
                       nm == << "IX", "IY", "SP" >>[j + 1]
                       new == B16(r[nm] + d)
                   IN e(IF Bit(p, 4) = 1 THEN r[nm] ELSE new, 1, [r EXCEPT ![nm] = new])
       [] t = 4 -> e(XbBase(r, i, a + 1) + << r.A, r.B, D >>[(p % 4) + 1], 1, r)
       [] t = 5 -> ind(XbBase(r, i, a + 3) + M16(m, a + 1), 3)
       [] t = 6 -> ind(XbBase(r, i, a + 1) + D, 1)

Psh8(p, v) == LET s == B16(p[1].SP - 1) IN << [p[1] EXCEPT !.SP = s], WB(p[2], s, v) >>
Psh16(p, v) == Psh8(Psh8(p, Lo(v)), Hi(v))
SetCC(r, v) == [r EXCEPT !.CC = v & (191 | (r.CC & 64))]

\* the registers of TFR and EXG
TexGet(r, n) == CASE n = 0 -> r.A [] n = 1 -> r.B [] n = 2 -> r.CC [] n = 3 -> r.TMP3 [] n = 4 -> W16(r.A, r.B)
                  [] n = 5 -> r.IX [] n = 6 -> r.IY [] n = 7 -> r.SP [] n = 8 -> r.TMP2
TexSet(r, n, v) == CASE n = 0 -> [r EXCEPT !.A = B8(v)] [] n = 1 -> [r EXCEPT !.B = B8(v)] [] n = 2 -> SetCC(r, B8(v))
                     [] n = 3 -> [r EXCEPT !.TMP3 = v] [] n = 4 -> [r EXCEPT !.A = Hi(v), !.B = Lo(v)]
                     [] n = 5 -> [r EXCEPT !.IX = v] [] n = 6 -> [r EXCEPT !.IY = v]
                     [] n = 7 -> [r EXCEPT !.SP = v] [] n = 8 -> [r EXCEPT !.TMP2 = v]
Tex(r, pb) ==
  LET s == (pb \div 16) % 8
      d == IF pb % 8 = 3 THEN 8 ELSE pb % 8
      s8 == s < 3
      d8 == d < 3
      vs == TexGet(r, s)
      vd == TexGet(r, d)
  IN IF pb < 128 THEN TexSet(r, d, IF s8 /\ ~d8 THEN B16(Rel(vs)) ELSE vs)
     ELSE LET r1 == TexSet(r, s, IF s8 = d8 \/ s8 THEN vd ELSE IF d = 0 THEN vd ELSE 65280 + vd)
          IN TexSet(r1, d, vs)

\* product of two words, and division of a double word, as <<high, low>>
Mul32(x, y) == LET l == x * (y % 256)
                   h == x * (y \div 256)                   \* l + 256 h
                   lo == (l % 65536) + (256 * (h % 256))
               IN << (l \div 65536) + (h \div 256) + (lo \div 65536), lo % 65536 >>
Neg32(p) == << B16((65535 - p[1]) + I(p[2] = 0)), B16(0 - p[2]) >>
MulS32(x, y) == LET ax == IF x >= 32768 THEN 65536 - x ELSE x
                    ay == IF y >= 32768 THEN 65536 - y ELSE y
                    p == Mul32(ax, ay)
                IN IF (x >= 32768) # (y >= 32768) THEN Neg32(p) ELSE p
\* hi < x: << quotient, remainder >>
RECURSIVE DivL(_, _, _, _, _)
DivL(k, rem, q, x, lo) ==
  IF k = 0 THEN << q, rem >>
  ELSE LET d == TLCEval((2 * rem) + Bit(lo, k - 1)) g == d >= x
       IN DivL(k - 1, TLCEval(IF g THEN d - x ELSE d), TLCEval((2 * q) + I(g)), x, lo)

M68HC12Exec(r, m) ==
  LET op0 == B(m, r.PC)
      P == op0 = 24
      op == IF P THEN B(m, r.PC + 1) ELSE op0
      o == r.PC + IF P THEN 2 ELSE 1
      f == r.CC
      lo == op % 16
      x2 == op \div 16
      D == W16(r.A, r.B)
      none == << >>
      R(q, mm, pc, u) == [r |-> [q EXCEPT !.PC = B16(pc)], m |-> mm, t |-> -1, u |-> u]
      g(q, n) == R(q, m, o + n, none)
      gm(q, mm, n) == R(q, mm, o + n, none)
      xb == XbEa(r, m, o)
      \* operand of mode k: 0 immediate of w bytes, 1 direct, 2 indexed, 3 extended
      opnd(k, w) == CASE k = 0 -> [ea |-> B16(o), n |-> w, r |-> r]
                      [] k = 1 -> [ea |-> B(m, o), n |-> 1, r |-> r]
                      [] k = 2 -> [ea |-> xb.ea, n |-> xb.n, r |-> xb.r]
                      [] k = 3 -> [ea |-> M16(m, o), n |-> 2, r |-> r]
      e8 == opnd(x2 % 4, 1)
      e16 == opnd(x2 % 4, 2)
      v8 == B(m, e8.ea)
      v16 == M16(m, e16.ea)
      setD(q, v) == [q EXCEPT !.A = Hi(v), !.B = Lo(v)]
      acc == IF op < 192 THEN "A" ELSE "B"
      nv(q, v) == [q EXCEPT !.CC = V(NZ(@, v), 0)]
      nv16(q, v) == [q EXCEPT !.CC = V(NZ16(@, v), 0)]
      \* D Y X S of the word loads, stores and comparisons: k = 0..3
      w4(k) == CASE k = 0 -> D [] k = 1 -> r.IY [] k = 2 -> r.IX [] k = 3 -> r.SP
      put4(q, k, v) == CASE k = 0 -> setD(q, v) [] k = 1 -> [q EXCEPT !.IY = v] [] k = 2 -> [q EXCEPT !.IX = v] [] k = 3 -> [q EXCEPT !.SP = v]
      rmw == << 0, 3, 12, 10, 4, 9, 6, 7, 8, 15 >>[lo + 1]
      \* bit operations: e operand, k operation (0 set, 1 clear, 2 branch if set, 3 branch if clear)
      bits(e, k) ==
        LET v == B(m, e.ea)
            mk == B(m, o + e.n)
            br == o + e.n + 2
            w == IF k = 0 THEN v | mk ELSE v & (255 - mk)
        IN IF k < 2 THEN R(nv(e.r, w), WB(m, e.ea, w), o + e.n + 1, none)
           ELSE R(e.r, m, IF (IF k = 2 THEN (v & mk) = mk ELSE (v & mk) = 0) THEN br + Rel(B(m, o + e.n + 1)) ELSE br, none)
      call(q, pc, n) == LET s == Psh16(<< q, m >>, B16(o + n)) IN R(s[1], s[2], pc, none)
      callp(q, pc, pg, n) == LET s == Psh8(Psh16(<< q, m >>, B16(o + n)), B(m, 53)) IN R(s[1], WB(s[2], 53, pg), pc, none)
      int(vec) == LET s == Psh8(Psh8(Psh8(Psh16(Psh16(Psh16(<< r, m >>, B16(o)), r.IY), r.IX), r.A), r.B), f)
                  IN R([s[1] EXCEPT !.CC = SetBit(@, 4, 1)], s[2], M16(m, vec), none)
      psh(k, v) == LET s == IF k = 1 THEN Psh8(<< r, m >>, v) ELSE Psh16(<< r, m >>, v) IN R(s[1], s[2], o, none)
      t8 == B(m, r.SP)
      t16 == M16(m, r.SP)
      up(n) == [r EXCEPT !.SP = B16(@ + n)]
      lp == B(m, o)
      ln == lp % 8
      lv == LET v == TexGet(r, ln) d == CASE lp \div 64 = 0 -> 0 - 1 [] lp \div 64 = 1 -> 0 [] OTHER -> 1
            IN IF ln < 2 THEN B8(v + d) ELSE B16(v + d)
      xr == r.IX
      ccu == [CC |-> 15]
      \* moves: es, ed operands; n operand bytes, w width
      mov(w, q, src, dst, n) == R(q, IF w = 1 THEN WB(m, dst, B(m, src)) ELSE WW(m, dst, M16(m, src)), o + n, none)
      mx(w, k) ==
        CASE k = 0 -> mov(w, xb.r, B16(o + 1), xb.ea, 1 + w)
          [] k = 1 -> mov(w, xb.r, M16(m, o + 1), xb.ea, 3)
          [] k = 2 -> LET d == XbEa(xb.r, m, o + 1) IN mov(w, d.r, xb.ea, d.ea, 2)
          [] k = 3 -> mov(w, r, B16(o), M16(m, o + w), 2 + w)
          [] k = 4 -> mov(w, r, M16(m, o), M16(m, o + 2), 4)
          [] k = 5 -> mov(w, xb.r, xb.ea, M16(m, o + 1), 3)
      xv8 == B(m, xb.ea)
      xv16 == M16(m, xb.ea)
      \* EMINx / EMAXx / MINx / MAXx: k = op % 8
      minmax(k) ==
        LET wd == k \in {2, 3, 6, 7}
            a == IF wd THEN D ELSE r.A
            b == IF wd THEN xv16 ELSE xv8
            q == [xb.r EXCEPT !.CC = IF wd THEN FSub16(@, a, b) ELSE FSub(@, a, b, 0)]
            win == IF k % 2 = 0 THEN a >= b ELSE a <= b      \* the register wins
            win2 == win \/ a = b
        IN IF k < 4 THEN R(IF win2 THEN q ELSE IF wd THEN setD(q, b) ELSE [q EXCEPT !.A = b], m, o + xb.n, none)
           ELSE R(q, IF ~win2 THEN m ELSE IF wd THEN WW(m, xb.ea, a) ELSE WB(m, xb.ea, a), o + xb.n, none)
      neg(x) == x >= 32768
      mag(x) == IF neg(x) THEN 65536 - x ELSE x
      page0 ==
        CASE op = 1 ->                                        \* MEM: grade of membership
               LET p1 == B(m, xr) p2 == B(m, xr + 1) s1 == B(m, xr + 2) s2 == B(m, xr + 3)
                   g1 == IF s1 = 0 THEN 255 ELSE s1 * (r.A - p1)
                   g2 == IF s2 = 0 THEN 255 ELSE s2 * (p2 - r.A)
                   mn == IF g1 < g2 THEN g1 ELSE g2
                   gr == IF r.A < p1 \/ r.A > p2 THEN 0 ELSE IF mn > 255 THEN 255 ELSE mn
               IN R([r EXCEPT !.IX = B16(@ + 4), !.IY = B16(@ + 1)], WB(m, r.IY, gr), o, [CC |-> 47])
          [] op = 2 -> g([r EXCEPT !.IY = B16(@ + 1), !.CC = Z(@, I(r.IY = 65535))], 0)
          [] op = 3 -> g([r EXCEPT !.IY = B16(@ - 1), !.CC = Z(@, I(r.IY = 1))], 0)
          [] op = 8 -> g([r EXCEPT !.IX = B16(@ + 1), !.CC = Z(@, I(xr = 65535))], 0)
          [] op = 9 -> g([r EXCEPT !.IX = B16(@ - 1), !.CC = Z(@, I(xr = 1))], 0)
          [] op = 4 -> LET q == TexSet(r, ln, lv)
                           tk == (lv = 0) = (Bit(lp, 5) = 0)
                       IN R(q, m, o + 2 + IF tk THEN B(m, o + 1) - (256 * Bit(lp, 4)) ELSE 0, none)
          [] op = 5 -> R(xb.r, m, xb.ea, none)
          [] op = 6 -> R(r, m, M16(m, o), none)
          [] op = 7 -> call(r, o + 1 + Rel(B(m, o)), 1)
          [] op = 10 -> R(up(3), WB(m, 53, t8), M16(m, r.SP + 1), none)
          [] op = 11 -> R(SetCC([r EXCEPT !.B = B(m, r.SP + 1), !.A = B(m, r.SP + 2), !.IX = M16(m, r.SP + 3),
                                         !.IY = M16(m, r.SP + 5), !.SP = B16(@ + 9)], t8), m, M16(m, r.SP + 7), none)
          [] op \in 12..15 -> bits([ea |-> xb.ea, n |-> xb.n, r |-> xb.r], op - 12)
          [] op = 16 -> g(SetCC(r, f & B(m, o)), 1)
          [] op = 20 -> g(SetCC(r, f | B(m, o)), 1)
          [] op = 17 -> IF xr = 0 THEN R([r EXCEPT !.CC = C(@, 1)], m, o, [CC |-> 14])
                        ELSE IF r.IY >= xr THEN R([r EXCEPT !.CC = C(V(@, 1), 0)], m, o, [CC |-> 12, A |-> 255, B |-> 255, IY |-> 65535])
                        ELSE LET d == DivL(16, r.IY, 0, xr, D)
                             IN g([setD(r, d[2]) EXCEPT !.IY = d[1], !.CC = C(V(NZ16(@, d[1]), 0), 0)], 0)
          [] op = 18 -> g([setD(r, r.A * r.B) EXCEPT !.CC = C(@, Bit(r.A * r.B, 7))], 0)
          [] op = 19 -> LET p == Mul32(D, r.IY)
                        IN g([setD(r, p[2]) EXCEPT !.IY = p[1], !.CC = C(Z(N(@, I(neg(p[1]))), I(p = << 0, 0 >>)), Bit(p[2], 15))], 0)
          [] op = 21 -> call(xb.r, xb.ea, xb.n)
          [] op = 22 -> call(r, M16(m, o), 2)
          [] op = 23 -> call(r, B(m, o), 1)
          [] op \in 25..27 -> R(put4(xb.r, op - 24, xb.ea), m, o + xb.n, none)      \* LEAY LEAX LEAS
          [] op \in 28..31 -> bits(opnd(3, 0), op - 28)
          [] x2 = 2 -> R(r, m, o + 1 + IF Taken(lo, f) THEN Rel(B(m, o)) ELSE 0, none)
          [] op = 48 -> g([up(2) EXCEPT !.IX = t16], 0)
          [] op = 49 -> g([up(2) EXCEPT !.IY = t16], 0)
          [] op = 50 -> g([up(1) EXCEPT !.A = t8], 0)
          [] op = 51 -> g([up(1) EXCEPT !.B = t8], 0)
          [] op = 52 -> psh(2, xr) [] op = 53 -> psh(2, r.IY) [] op = 54 -> psh(1, r.A) [] op = 55 -> psh(1, r.B)
          [] op = 56 -> g(SetCC(up(1), t8), 0)
          [] op = 57 -> psh(1, f)
          [] op = 58 -> g(setD(up(2), t16), 0)
          [] op = 59 -> psh(2, D)
          [] op = 61 -> R(up(2), m, t16, none)
          [] op = 63 -> int(65526)
          [] op = 73 -> g([setD(r, D \div 2) EXCEPT !.CC = C(V(NZ16(@, D \div 2), D % 2), D % 2)], 0)
          [] op = 89 -> LET x == B16(2 * D) c == Bit(D, 15)
                        IN g([setD(r, x) EXCEPT !.CC = C(V(NZ16(@, x), (c + Bit(x, 15)) % 2), c)], 0)
          [] op = 74 -> callp(r, M16(m, o), B(m, o + 2), 3)
          [] op = 75 -> IF XbType(B(m, o)) \in {5, 6} THEN callp(r, xb.ea, B(m, xb.ip + 2), xb.n)
                        ELSE callp(xb.r, xb.ea, B(m, o + xb.n), xb.n + 1)
          [] op \in 76..79 -> bits(opnd(1, 0), op - 76)
          [] x2 \in 4..5 /\ lo < 9 -> LET a == IF x2 = 4 THEN "A" ELSE "B" z == RmwX(rmw, r[a], f) IN g([r EXCEPT ![a] = z[1], !.CC = z[2]], 0)
          [] x2 \in 6..7 /\ lo < 10 -> LET z == RmwX(rmw, v8, f) IN R([e8.r EXCEPT !.CC = z[2]], WB(m, e8.ea, z[1]), o + e8.n, none)
          [] x2 \in 5..7 /\ lo \in 10..11 -> LET v == IF lo = 10 THEN r.A ELSE r.B IN R(nv(e8.r, v), WB(m, e8.ea, v), o + e8.n, none)
          [] x2 \in 5..7 /\ lo >= 12 -> LET v == w4(lo - 12) IN R(nv16(e8.r, v), WW(m, e8.ea, v), o + e8.n, none)
          [] op = 135 -> g([r EXCEPT !.A = 0, !.CC = C(V(NZ(@, 0), 0), 0)], 0)
          [] op = 199 -> g([r EXCEPT !.B = 0, !.CC = C(V(NZ(@, 0), 0), 0)], 0)
          [] op \in {151, 215} -> g([r EXCEPT !.CC = C(V(NZ(@, r[acc]), 0), 0)], 0)
          [] op = 167 -> g(r, 0)
          [] op = 183 -> g(Tex(r, B(m, o)), 1)
          [] op \in {231, 247} -> R([e8.r EXCEPT !.CC = C(V(NZ(@, v8), 0), 0)], m, o + e8.n, none)
          [] lo = 3 -> IF op < 192 THEN R([setD(e16.r, B16(D - v16)) EXCEPT !.CC = FSub16(@, D, v16)], m, o + e16.n, none)
                       ELSE R([setD(e16.r, B16(D + v16)) EXCEPT !.CC = FAdd16(@, D, v16)], m, o + e16.n, none)
          [] lo >= 12 -> IF op < 192 THEN R([e16.r EXCEPT !.CC = FSub16(@, w4(lo - 12), v16)], m, o + e16.n, none)
                         ELSE R(nv16(put4(e16.r, lo - 12, v16), v16), m, o + e16.n, none)
          [] OTHER -> LET z == Alu(lo, r[acc], v8, f) IN R([e8.r EXCEPT ![acc] = z[1], !.CC = z[2]], m, o + e8.n, none)
      page18 ==
        CASE op \in 0..5 -> mx(2, op)
          [] op = 6 -> g([r EXCEPT !.A = B8(r.A + r.B), !.CC = FAdd(@, r.A, r.B, 0)], 0)
          [] op = 7 -> R(Daa(r), m, o, [CC |-> 2])
          [] op \in 8..13 -> mx(1, op - 8)
          [] op = 14 -> g(nv([r EXCEPT !.B = r.A], r.A), 0)
          [] op = 15 -> g(nv([r EXCEPT !.A = r.B], r.B), 0)
          [] op = 16 -> IF xr = 0 THEN R([r EXCEPT !.IX = 65535, !.CC = C(V(@, 0), 1)], m, o, [A |-> 255, B |-> 255, CC |-> 4])
                        ELSE g([setD(r, D % xr) EXCEPT !.IX = D \div xr, !.CC = C(V(Z(@, I(D < xr)), 0), 0)], 0)
          [] op = 17 -> IF xr <= D THEN R([r EXCEPT !.IX = 65535, !.CC = C(V(@, 1), I(xr = 0))], m, o,
                                          [A |-> 255, B |-> 255, CC |-> IF xr = 0 THEN 6 ELSE 4])
                        ELSE LET d == FDiv(16, D, 0, xr)
                             IN g([setD(r, d[2]) EXCEPT !.IX = d[1], !.CC = C(V(Z(@, I(d[1] = 0)), 0), 0)], 0)
          [] op = 18 -> LET a == M16(m, o)
                            p == MulS32(M16(m, xr), M16(m, r.IY))
                            q == << M16(m, a), M16(m, a + 2) >>
                            l == p[2] + q[2]
                            h == p[1] + q[1] + (l \div 65536)
                            s == << B16(h), B16(l) >>
                        IN R([r EXCEPT !.CC = C(V(Z(N(@, I(neg(s[1]))), I(s = << 0, 0 >>)),
                                               I(neg(p[1]) = neg(q[1]) /\ neg(s[1]) # neg(p[1]))), I(l > 65535))],
                             WW(WW(m, a, s[1]), a + 2, s[2]), o + 2, none)
          [] op = 19 -> LET p == MulS32(D, r.IY)
                        IN g([setD(r, p[2]) EXCEPT !.IY = p[1], !.CC = C(Z(N(@, I(neg(p[1]))), I(p = << 0, 0 >>)), Bit(p[2], 15))], 0)
          [] op = 20 -> IF xr = 0 THEN R([r EXCEPT !.CC = C(@, 1)], m, o, [CC |-> 14])
                        ELSE LET n == << r.IY, D >>
                                 a == IF neg(r.IY) THEN Neg32(n) ELSE n
                                 sg == neg(r.IY) # neg(xr)
                                 ov == a[1] >= mag(xr)
                                 d == IF ov THEN << 0, 0 >> ELSE DivL(16, a[1], 0, mag(xr), a[2])
                                 big == ov \/ d[1] > (32767 + I(sg))
                                 q == IF sg THEN B16(0 - d[1]) ELSE d[1]
                                 rm == IF neg(r.IY) THEN B16(0 - d[2]) ELSE d[2]
                             IN IF big THEN R([r EXCEPT !.CC = C(V(@, 1), 0)], m, o, [CC |-> 12, A |-> 255, B |-> 255, IY |-> 65535])
                                ELSE g([setD(r, rm) EXCEPT !.IY = q, !.CC = C(V(NZ16(@, q), 0), 0)], 0)
          [] op = 21 -> IF xr = 0 THEN R([r EXCEPT !.CC = C(@, 1)], m, o, [CC |-> 14, A |-> 255, B |-> 255, IX |-> 65535])
                        ELSE IF D = 32768 /\ xr = 65535 THEN R([r EXCEPT !.CC = C(V(@, 1), 0)], m, o, [CC |-> 12, A |-> 255, B |-> 255, IX |-> 65535])
                        ELSE LET d == << mag(D) \div mag(xr), mag(D) % mag(xr) >>
                                 q == IF neg(D) # neg(xr) THEN B16(0 - d[1]) ELSE d[1]
                             IN g([setD(r, IF neg(D) THEN B16(0 - d[2]) ELSE d[2]) EXCEPT !.IX = q, !.CC = C(V(NZ16(@, q), 0), 0)], 0)
          [] op = 22 -> g([r EXCEPT !.A = B8(r.A - r.B), !.CC = FSub(@, r.A, r.B, 0)], 0)
          [] op = 23 -> g([r EXCEPT !.CC = FSub(@, r.A, r.B, 0)], 0)
          [] op \in 24..31 -> minmax(op - 24)
          [] x2 = 2 -> R(r, m, o + 2 + IF Taken(lo, f) THEN M16(m, o) ELSE 0, none)
          [] op = 61 -> LET y1 == xv8 y2 == B(m, xb.ea + 1)           \* TBL, rising segments
                            x == y1 + ((r.B * (y2 - y1)) \div 256)
                        IN R([xb.r EXCEPT !.A = x, !.CC = NZ(@, x)], m, o + xb.n, [CC |-> 3])
          [] op = 63 -> LET y1 == xv16 y2 == M16(m, xb.ea + 2)        \* ETBL
                            x == y1 + ((r.B * (y2 - y1)) \div 256)
                        IN R([setD(xb.r, x) EXCEPT !.CC = NZ16(@, x)], m, o + xb.n, [CC |-> 3])
          [] OTHER -> int(65528)
  IN IF P THEN page18 ELSE page0
=============================================================================
