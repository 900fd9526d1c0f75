--------------------------------- MODULE Gb ---------------------------------
(* Sharp LR35902 / SM83 (the processor of the Game Boy): the effect of one instruction and
   its duration in clock periods.  F: Z N H C 0 0 0 0. *)
EXTENDS IsaMem

GbSettle(m) == m
B(m, a) == Rd(m, B16(a))
M16(m, a) == W16(B(m, a + 1), B(m, a))            \* little endian
WB(m, a, v) == Wr(m, B16(a), v)
WW(m, a, v) == WB(WB(m, a, Lo(v)), a + 1, Hi(v))
Rel(v) == IF v < 128 THEN v ELSE v - 256
FL(z, n, h, c) == (128 * z) + (64 * n) + (32 * h) + (16 * c)
CF(f) == Bit(f, 4)

RN == <<"B", "C", "D", "E", "H", "L", "?", "A">>
PH == <<"B", "D", "H">>
PL == <<"C", "E", "L">>
HL(r) == W16(r.H, r.L)
Pair(r, i) == IF i = 3 THEN r.SP ELSE W16(r[PH[i + 1]], r[PL[i + 1]])
SetPair(r, i, v) == IF i = 3 THEN [r EXCEPT !.SP = v] ELSE [[r EXCEPT ![PH[i + 1]] = Hi(v)] EXCEPT ![PL[i + 1]] = Lo(v)]
Get(r, m, i) == IF i = 6 THEN B(m, HL(r)) ELSE r[RN[i + 1]]
Put(r, m, i, v) == IF i = 6 THEN <<r, WB(m, HL(r), v)>> ELSE <<[r EXCEPT ![RN[i + 1]] = v], m>>

\* accumulator operations: <<A, F>>
Alu(op, a, b, f) ==
  LET c == CF(f)
      add(ci) == LET x == B8(a + b + ci) IN <<x, FL(I(x = 0), 0, CarryAt(a, b, ci, 4), CarryAt(a, b, ci, 8))>>
      sub(ci) == LET x == B8(a - b - ci) IN <<x, FL(I(x = 0), 1, BorrowAt(a, b, ci, 4), BorrowAt(a, b, ci, 8))>>
      log(x, h) == <<x, FL(I(x = 0), 0, h, 0)>>
  IN CASE op = 0 -> add(0) [] op = 1 -> add(c) [] op = 2 -> sub(0) [] op = 3 -> sub(c)
       [] op = 4 -> log(a & b, 1) [] op = 5 -> log(a ^^ b, 0) [] op = 6 -> log(a | b, 0) [] op = 7 -> <<a, sub(0)[2]>>

\* rotates, shifts, swap: <<result, carry>>
Rot(op, v, f) ==
  LET c == CF(f) IN
  CASE op = 0 -> <<B8(v * 2) + Bit(v, 7), Bit(v, 7)>> [] op = 1 -> <<(v \div 2) + (128 * (v % 2)), v % 2>>
    [] op = 2 -> <<B8(v * 2) + c, Bit(v, 7)>> [] op = 3 -> <<(v \div 2) + (128 * c), v % 2>>
    [] op = 4 -> <<B8(v * 2), Bit(v, 7)>> [] op = 5 -> <<(v \div 2) + (128 * Bit(v, 7)), v % 2>>
    [] op = 6 -> <<(v \div 16) + (16 * (v % 16)), 0>> [] op = 7 -> <<v \div 2, v % 2>>

Daa(r) ==
  LET n == Bit(r.F, 6) h == Bit(r.F, 5) c == CF(r.F)
      c2 == IF n = 1 THEN c = 1 ELSE c = 1 \/ r.A > 153
      h2 == IF n = 1 THEN h = 1 ELSE h = 1 \/ r.A % 16 > 9
      d == (IF c2 THEN 96 ELSE 0) + (IF h2 THEN 6 ELSE 0)
      x == B8(IF n = 1 THEN r.A - d ELSE r.A + d)
  IN [r EXCEPT !.A = x, !.F = FL(I(x = 0), n, 0, I(c2))]

Cond(i, f) == CASE i = 0 -> Bit(f, 7) = 0 [] i = 1 -> Bit(f, 7) = 1 [] i = 2 -> CF(f) = 0 [] i = 3 -> CF(f) = 1

\* SP + signed displacement: <<sum, F>>
SpD(r, d) == <<B16(r.SP + Rel(d)), FL(0, 0, CarryAt(r.SP % 256, d, 0, 4), CarryAt(r.SP % 256, d, 0, 8))>>

GbExec(r, m) ==
  LET op == Rd(m, r.PC)
      o == r.PC + 1
      x == op \div 64
      y == (op \div 8) % 8
      z == op % 8
      p == y \div 2
      n == B(m, o)
      nn == M16(m, o)
      R(q, mm, pc, t) == [r |-> [q EXCEPT !.PC = B16(pc), !.F = @ & 240], m |-> mm, t |-> t, u |-> << >>]
      g(q, len, t) == R(q, m, o + len, t)
      gm(q, mm, len, t) == R(q, mm, o + len, t)
      push(v) == WB(WB(m, r.SP - 1, Hi(v)), r.SP - 2, Lo(v))
      sp2 == [r EXCEPT !.SP = B16(@ - 2)]
      pop == [r EXCEPT !.SP = B16(@ + 2)]
      call(a, len, t) == R(sp2, push(B16(o + len)), a, t)
      AF == W16(r.A, r.F & 240)
      alu(b, len, t) == LET a == Alu(y, r.A, b, r.F) IN g([r EXCEPT !.A = a[1], !.F = a[2]], len, t)
      ldA(a, len, t) == g([r EXCEPT !.A = B(m, a)], len, t)
      stA(a, len, t) == gm(r, WB(m, a, r.A), len, t)
      step(q, d) == SetPair(q, 2, B16(HL(r) + d))
  IN
  CASE op = 203 -> LET i == n % 8 v == Get(r, m, i) b == (n \div 8) % 8 k == n \div 64 t == IF i = 6 THEN 16 ELSE 8 IN
         (CASE k = 0 -> LET w == Rot(b, v, r.F) q == Put(r, m, i, w[1])
                        IN gm([q[1] EXCEPT !.F = FL(I(w[1] = 0), 0, 0, w[2])], q[2], 1, t)
            [] k = 1 -> g([r EXCEPT !.F = FL(1 - Bit(v, b), 0, 1, CF(@))], 1, IF i = 6 THEN 12 ELSE 8)
            [] k = 2 -> LET q == Put(r, m, i, SetBit(v, b, 0)) IN gm(q[1], q[2], 1, t)
            [] k = 3 -> LET q == Put(r, m, i, SetBit(v, b, 1)) IN gm(q[1], q[2], 1, t))
    [] x = 0 /\ z = 0 ->
         (CASE y = 0 -> g(r, 0, 4)
            [] y = 1 -> gm(r, WW(m, nn, r.SP), 2, 20)
            [] y = 3 -> R(r, m, o + 1 + Rel(n), 12)
            [] y > 3 -> IF Cond(y - 4, r.F) THEN R(r, m, o + 1 + Rel(n), 12) ELSE g(r, 1, 8))
    [] x = 0 /\ z = 1 /\ y % 2 = 0 -> g(SetPair(r, p, nn), 2, 12)
    [] x = 0 /\ z = 1 -> LET a == HL(r) b == Pair(r, p)
                         IN g([SetPair(r, 2, B16(a + b)) EXCEPT !.F = FL(Bit(r.F, 7), 0, CarryAt(a, b, 0, 12), CarryAt(a, b, 0, 16))], 0, 8)
    [] x = 0 /\ z = 2 ->
         LET a == IF p < 2 THEN Pair(r, p) ELSE HL(r)
             q == IF p < 2 THEN r ELSE SetPair(r, 2, B16(a + IF p = 2 THEN 1 ELSE 0 - 1))
         IN IF y % 2 = 0 THEN gm(q, WB(m, a, r.A), 0, 8) ELSE g([q EXCEPT !.A = B(m, a)], 0, 8)
    [] x = 0 /\ z = 3 -> g(SetPair(r, p, B16(Pair(r, p) + IF y % 2 = 0 THEN 1 ELSE 0 - 1)), 0, 8)
    [] x = 0 /\ z = 4 -> LET v == Get(r, m, y) w == B8(v + 1) q == Put(r, m, y, w)
                         IN gm([q[1] EXCEPT !.F = FL(I(w = 0), 0, I(v % 16 = 15), CF(@))], q[2], 0, IF y = 6 THEN 12 ELSE 4)
    [] x = 0 /\ z = 5 -> LET v == Get(r, m, y) w == B8(v - 1) q == Put(r, m, y, w)
                         IN gm([q[1] EXCEPT !.F = FL(I(w = 0), 1, I(v % 16 = 0), CF(@))], q[2], 0, IF y = 6 THEN 12 ELSE 4)
    [] x = 0 /\ z = 6 -> LET q == Put(r, m, y, n) IN gm(q[1], q[2], 1, IF y = 6 THEN 12 ELSE 8)
    [] x = 0 /\ z = 7 ->
         (CASE y < 4 -> LET w == Rot(y, r.A, r.F) IN g([r EXCEPT !.A = w[1], !.F = FL(0, 0, 0, w[2])], 0, 4)
            [] y = 4 -> g(Daa(r), 0, 4)
            [] y = 5 -> g([r EXCEPT !.A = 255 - @, !.F = FL(Bit(@, 7), 1, 1, CF(@))], 0, 4)
            [] y = 6 -> g([r EXCEPT !.F = FL(Bit(@, 7), 0, 0, 1)], 0, 4)
            [] y = 7 -> g([r EXCEPT !.F = FL(Bit(@, 7), 0, 0, 1 - CF(@))], 0, 4))
    [] x = 1 -> LET q == Put(r, m, y, Get(r, m, z)) IN gm(q[1], q[2], 0, IF y = 6 \/ z = 6 THEN 8 ELSE 4)
    [] x = 2 -> alu(Get(r, m, z), 0, IF z = 6 THEN 8 ELSE 4)
    [] x = 3 /\ z = 0 ->
         (CASE y < 4 -> IF Cond(y, r.F) THEN R(pop, m, M16(m, r.SP), 20) ELSE g(r, 0, 8)
            [] y = 4 -> stA(65280 + n, 1, 12) [] y = 6 -> ldA(65280 + n, 1, 12)
            [] y = 5 -> LET s == SpD(r, n) IN g([r EXCEPT !.SP = s[1], !.F = s[2]], 1, 16)
            [] y = 7 -> LET s == SpD(r, n) IN g([SetPair(r, 2, s[1]) EXCEPT !.F = s[2]], 1, 12))
    [] x = 3 /\ z = 1 ->
         (CASE y % 2 = 0 -> LET v == M16(m, r.SP) IN IF p = 3 THEN g([pop EXCEPT !.A = Hi(v), !.F = Lo(v)], 0, 12) ELSE g(SetPair(pop, p, v), 0, 12)
            [] y \in {1, 3} -> R(pop, m, M16(m, r.SP), 16)
            [] y = 5 -> R(r, m, HL(r), 4)
            [] y = 7 -> g([r EXCEPT !.SP = HL(r)], 0, 8))
    [] x = 3 /\ z = 2 ->
         (CASE y < 4 -> IF Cond(y, r.F) THEN R(r, m, nn, 16) ELSE g(r, 2, 12)
            [] y = 4 -> stA(65280 + r.C, 0, 8) [] y = 6 -> ldA(65280 + r.C, 0, 8)
            [] y = 5 -> stA(nn, 2, 16) [] y = 7 -> ldA(nn, 2, 16))
    [] op = 195 -> R(r, m, nn, 16)
    [] op \in {243, 251} -> g(r, 0, 4)
    [] x = 3 /\ z = 4 -> IF Cond(y, r.F) THEN call(nn, 2, 24) ELSE g(r, 2, 12)
    [] x = 3 /\ z = 5 /\ y % 2 = 0 -> gm(sp2, push(IF p = 3 THEN AF ELSE Pair(r, p)), 0, 16)
    [] op = 205 -> call(nn, 2, 24)
    [] x = 3 /\ z = 6 -> alu(n, 1, 8)
    [] x = 3 /\ z = 7 -> call(y * 8, 0, 16)
=============================================================================
