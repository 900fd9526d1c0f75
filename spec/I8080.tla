------------------------------- MODULE I8080 --------------------------------
(* Intel 8080 (r.K = 0) and 8085 (r.K = 1, with its additional instructions): the
   effect and the duration of one instruction.
   F: S(7) Z(6) AC(4) P(2) C(0); on the 8080 bit 1 is 1, bits 3 and 5 are 0; the 8085
   has X5 in bit 5 and V in bit 1, which are left open. *)
EXTENDS IsaMem

I8080Settle(m) == m
M16(m, a) == W16(Rd(m, B16(a + 1)), Rd(m, B16(a)))
WW(m, a, v) == Wr(Wr(m, B16(a), Lo(v)), B16(a + 1), Hi(v))
SZP(f, x) == SetBit(SetBit(SetBit(f, 7, Bit(x, 7)), 6, I(x = 0)), 2, 1 - Parity(x))
CF(f, c) == SetBit(f, 0, c)
AF(f, a) == SetBit(f, 4, a)

\* 8 bit registers by their code
G(r, m, k) == CASE k = 0 -> Hi(r.BC) [] k = 1 -> Lo(r.BC) [] k = 2 -> Hi(r.DE) [] k = 3 -> Lo(r.DE)
                [] k = 4 -> Hi(r.HL) [] k = 5 -> Lo(r.HL) [] k = 6 -> Rd(m, r.HL) [] k = 7 -> r.A
PutR(r, k, v) ==
  CASE k = 0 -> [r EXCEPT !.BC = W16(v, Lo(@))] [] k = 1 -> [r EXCEPT !.BC = W16(Hi(@), v)]
    [] k = 2 -> [r EXCEPT !.DE = W16(v, Lo(@))] [] k = 3 -> [r EXCEPT !.DE = W16(Hi(@), v)]
    [] k = 4 -> [r EXCEPT !.HL = W16(v, Lo(@))] [] k = 5 -> [r EXCEPT !.HL = W16(Hi(@), v)]
    [] k = 6 -> r [] k = 7 -> [r EXCEPT !.A = v]
Put(q, k, v) == <<PutR(q[1], k, v), IF k = 6 THEN Wr(q[2], q[1].HL, v) ELSE q[2]>>
RP == <<"BC", "DE", "HL", "SP">>
Fix(f, k) == IF k = 0 THEN SetBit(SetBit(SetBit(f, 3, 0), 5, 0), 1, 1) ELSE SetBit(f, 3, 0)

Alu(r, k, b) ==
  LET a == r.A c == r.F % 2 IN
  CASE k \in {0, 1} -> LET ci == k * c x == B8(a + b + ci) IN
         [r EXCEPT !.A = x, !.F = AF(CF(SZP(@, x), CarryAt(a, b, ci, 8)), CarryAt(a, b, ci, 4))]
    [] k \in {2, 3, 7} -> LET ci == IF k = 3 THEN c ELSE 0 x == B8(a - b - ci) IN
         [r EXCEPT !.A = IF k = 7 THEN a ELSE x, !.F = AF(CF(SZP(@, x), BorrowAt(a, b, ci, 8)), 1 - BorrowAt(a, b, ci, 4))]
    [] k = 4 -> [r EXCEPT !.A = a & b, !.F = AF(CF(SZP(@, a & b), 0), 1)]
    [] k = 5 -> [r EXCEPT !.A = a ^^ b, !.F = AF(CF(SZP(@, a ^^ b), 0), 0)]
    [] k = 6 -> [r EXCEPT !.A = a | b, !.F = AF(CF(SZP(@, a | b), 0), 0)]

Daa(r) ==
  LET l == r.A % 16
      c1 == IF l > 9 \/ Bit(r.F, 4) = 1 THEN 6 ELSE 0
      ac == I(l + c1 > 15)
      c2 == IF r.A > 153 \/ r.F % 2 = 1 THEN 96 ELSE 0      \* upper digit > 9 after the first correction
      x == B8(r.A + c1 + c2)
  IN [r EXCEPT !.A = x, !.F = AF(CF(SZP(@, x), IF c2 # 0 THEN 1 ELSE 0), ac)]

Cond(f, k) == (k % 2 = 1) = (Bit(f, <<6, 0, 2, 7>>[(k \div 2) + 1]) = 1)
Push(p, v) == <<[p[1] EXCEPT !.SP = B16(@ - 2)], Wr(Wr(p[2], B16(p[1].SP - 1), Hi(v)), B16(p[1].SP - 2), Lo(v))>>

I8080Exec(r, m) ==
  LET op == Rd(m, r.PC)
      n == Rd(m, B16(r.PC + 1))
      nn == M16(m, r.PC + 1)
      x2 == op \div 64
      k == (op \div 8) % 8
      s == op % 8
      K == r.K
      und == IF K = 0 THEN (IF (x2 = 2 /\ k = 4) \/ op = 230 THEN [F |-> 16] ELSE << >>) ELSE [F |-> 34]
      R(q, mm, pc, t0, t1) == [r |-> [q EXCEPT !.PC = B16(pc), !.F = Fix(@, K)], m |-> mm, t |-> IF K = 0 THEN t0 ELSE t1, u |-> und]
      g(q, len, t0, t1) == R(q, m, r.PC + len, t0, t1)
      gp(q, len, t0, t1) == R(q[1], q[2], r.PC + len, t0, t1)
      rp == RP[((op \div 16) % 4) + 1]
      push(v) == Push(<<r, m>>, v)
      jump(pc, len, t0, t1) == LET q == push(B16(r.PC + len)) IN R(q[1], q[2], pc, t0, t1)
      top == M16(m, r.SP)
      rot(x, c) == g([r EXCEPT !.A = x, !.F = CF(@, c)], 1, 4, 4)
      a == r.A
      c == r.F % 2
      jmp(t) == R(r, m, IF t THEN nn ELSE r.PC + 3, 10, IF t THEN 10 ELSE 7)
  IN
  CASE x2 = 1 -> IF k = 6 \/ s = 6 THEN gp(Put(<<r, m>>, k, G(r, m, s)), 1, 7, 7) ELSE gp(Put(<<r, m>>, k, G(r, m, s)), 1, 5, 4)
    [] x2 = 2 -> LET t == IF s = 6 THEN 7 ELSE 4 IN g(Alu(r, k, G(r, m, s)), 1, t, t)
    [] op = 0 -> g(r, 1, 4, 4)
    \* 8085 only
    [] K = 1 /\ op = 8 -> LET x == B16(r.HL - r.BC) IN                                                        \* DSUB
         [g([r EXCEPT !.HL = x, !.F = CF(SetBit(SetBit(@, 7, Bit(x, 15)), 6, I(x = 0)), I(r.HL < r.BC))], 1, 10, 10)
          EXCEPT !.u = [F |-> 54]]
    [] K = 1 /\ op = 16 -> g([r EXCEPT !.HL = (@ \div 2) + 32768 * Bit(@, 15), !.F = CF(@, r.HL % 2)], 1, 7, 7)   \* ARHL
    [] K = 1 /\ op = 24 -> g([r EXCEPT !.DE = B16(@ * 2) + c, !.F = CF(@, Bit(r.DE, 15))], 1, 10, 10)             \* RDEL
    [] K = 1 /\ op = 40 -> g([r EXCEPT !.DE = B16(r.HL + n)], 2, 10, 10)                                       \* LDHI
    [] K = 1 /\ op = 56 -> g([r EXCEPT !.DE = B16(r.SP + n)], 2, 10, 10)                                       \* LDSI
    [] K = 1 /\ op = 217 -> gp(<<r, WW(m, r.DE, r.HL)>>, 1, 10, 10)                                            \* SHLX
    [] K = 1 /\ op = 237 -> g([r EXCEPT !.HL = M16(m, r.DE)], 1, 10, 10)                                       \* LHLX
    [] K = 1 /\ op = 203 -> IF Bit(r.F, 1) = 1 THEN jump(64, 1, 12, 12) ELSE g(r, 1, 6, 6)                     \* RSTV
    [] K = 1 /\ op = 221 -> jmp(Bit(r.F, 5) = 0)                                                               \* JNX5
    [] K = 1 /\ op = 253 -> jmp(Bit(r.F, 5) = 1)                                                               \* JX5
    [] x2 = 0 /\ op % 16 = 1 -> g([r EXCEPT ![rp] = nn], 3, 10, 10)
    [] x2 = 0 /\ op % 16 = 9 -> g([r EXCEPT !.HL = B16(@ + r[rp]), !.F = CF(@, CarryAt(r.HL, r[rp], 0, 16))], 1, 10, 10)
    [] op \in {2, 18} -> gp(<<r, Wr(m, r[rp], a)>>, 1, 7, 7)
    [] op \in {10, 26} -> g([r EXCEPT !.A = Rd(m, r[rp])], 1, 7, 7)
    [] op = 34 -> gp(<<r, WW(m, nn, r.HL)>>, 3, 16, 16)
    [] op = 42 -> g([r EXCEPT !.HL = M16(m, nn)], 3, 16, 16)
    [] op = 50 -> gp(<<r, Wr(m, nn, a)>>, 3, 13, 13)
    [] op = 58 -> g([r EXCEPT !.A = Rd(m, nn)], 3, 13, 13)
    [] x2 = 0 /\ op % 16 = 3 -> g([r EXCEPT ![rp] = B16(@ + 1)], 1, 5, 6)
    [] x2 = 0 /\ op % 16 = 11 -> g([r EXCEPT ![rp] = B16(@ - 1)], 1, 5, 6)
    [] x2 = 0 /\ s = 4 -> LET v == G(r, m, k) x == B8(v + 1)
                              q == Put(<<[r EXCEPT !.F = AF(SZP(@, x), I(v % 16 = 15))], m>>, k, x)
                          IN IF k = 6 THEN gp(q, 1, 10, 10) ELSE gp(q, 1, 5, 4)
    [] x2 = 0 /\ s = 5 -> LET v == G(r, m, k) x == B8(v - 1)
                              q == Put(<<[r EXCEPT !.F = AF(SZP(@, x), I(v % 16 # 0))], m>>, k, x)
                          IN IF k = 6 THEN gp(q, 1, 10, 10) ELSE gp(q, 1, 5, 4)
    [] x2 = 0 /\ s = 6 -> LET t == IF k = 6 THEN 10 ELSE 7 IN gp(Put(<<r, m>>, k, n), 2, t, t)
    [] op = 7 -> rot(B8(a * 2) + Bit(a, 7), Bit(a, 7)) [] op = 15 -> rot((a \div 2) + 128 * (a % 2), a % 2)
    [] op = 23 -> rot(B8(a * 2) + c, Bit(a, 7)) [] op = 31 -> rot((a \div 2) + 128 * c, a % 2)
    [] op = 39 -> g(Daa(r), 1, 4, 4) [] op = 47 -> g([r EXCEPT !.A = 255 - @], 1, 4, 4)
    [] op = 55 -> g([r EXCEPT !.F = CF(@, 1)], 1, 4, 4) [] op = 63 -> g([r EXCEPT !.F = CF(@, 1 - c)], 1, 4, 4)
    [] x2 = 3 /\ s = 0 -> IF Cond(r.F, k) THEN R([r EXCEPT !.SP = B16(@ + 2)], m, top, 11, 12) ELSE g(r, 1, 5, 6)
    [] x2 = 3 /\ s = 2 -> jmp(Cond(r.F, k))
    [] x2 = 3 /\ s = 4 -> IF Cond(r.F, k) THEN jump(nn, 3, 17, 18) ELSE g(r, 3, 11, 9)
    [] x2 = 3 /\ s = 6 -> g(Alu(r, k, n), 2, 7, 7)
    [] x2 = 3 /\ s = 7 -> jump(k * 8, 1, 11, 12)
    [] op = 241 -> g([r EXCEPT !.SP = B16(@ + 2), !.A = Hi(top), !.F = Lo(top)], 1, 10, 10)
    [] x2 = 3 /\ op % 16 = 1 -> g([[r EXCEPT !.SP = B16(@ + 2)] EXCEPT ![rp] = top], 1, 10, 10)
    [] op = 245 -> gp(push(W16(a, r.F)), 1, 11, 12)
    [] x2 = 3 /\ op % 16 = 5 -> gp(push(r[rp]), 1, 11, 12)
    [] op = 201 -> R([r EXCEPT !.SP = B16(@ + 2)], m, top, 10, 10)
    [] op = 195 -> R(r, m, nn, 10, 10) [] op = 205 -> jump(nn, 3, 17, 18)
    [] op = 227 -> gp(<<[r EXCEPT !.HL = top], WW(m, r.SP, r.HL)>>, 1, 18, 16)
    [] op = 233 -> R(r, m, r.HL, 5, 6) [] op = 249 -> g([r EXCEPT !.SP = r.HL], 1, 5, 6)
    [] op = 235 -> g([r EXCEPT !.HL = r.DE, !.DE = r.HL], 1, -1, 4)
    [] op \in {243, 251} -> g(r, 1, 4, 4)
=============================================================================
