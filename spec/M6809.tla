------------------------------- MODULE M6809 --------------------------------
(* Motorola 6809: the effect of one instruction (the simulator does not claim exact
   durations).  CC: E F H I N Z V C.  D is A:B. *)
EXTENDS M68, SequencesExt

M6809Settle(m) == m
P9Name(k) == <<"X", "Y", "U", "S">>[k + 1]

\* indexed addressing, post byte at address o: effective address, registers after it, bytes used
P9Idx(r, m, o) ==
  LET pb == B(m, o)
      rn == P9Name((pb \div 32) % 4)
      x == r[rn]
      k == pb % 16
      ind == Bit(pb, 4) = 1
      D == W16(r.A, r.B)
      E(ea, q, n) == [ea |-> IF ind THEN M16(m, B16(ea)) ELSE B16(ea), r |-> q, n |-> n]
  IN IF pb < 128
     THEN [ea |-> B16(x + IF Bit(pb, 4) = 1 THEN (pb % 32) - 32 ELSE pb % 32), r |-> r, n |-> 1]
     ELSE CASE k = 0 -> E(x, [r EXCEPT ![rn] = B16(x + 1)], 1)
            [] k = 1 -> E(x, [r EXCEPT ![rn] = B16(x + 2)], 1)
            [] k = 2 -> E(B16(x - 1), [r EXCEPT ![rn] = B16(x - 1)], 1)
            [] k = 3 -> E(B16(x - 2), [r EXCEPT ![rn] = B16(x - 2)], 1)
            [] k = 4 -> E(x, r, 1)
            [] k = 5 -> E(B16(x + S8(r.B)), r, 1)
            [] k = 6 -> E(B16(x + S8(r.A)), r, 1)
            [] k = 8 -> E(B16(x + S8(B(m, o + 1))), r, 2)
            [] k = 9 -> E(B16(x + M16(m, o + 1)), r, 3)
            [] k = 11 -> E(B16(x + D), r, 1)
            [] k = 12 -> E(B16(o + 2 + S8(B(m, o + 1))), r, 2)
            [] k = 13 -> E(B16(o + 3 + M16(m, o + 1)), r, 3)
            [] k = 15 -> E(M16(m, o + 1), r, 3)

\* one shift, negate, ... of 8 bits: as on the 6800 but the shifts to the right leave V alone and TST leaves C alone
P9Rmw(op, v, f) ==
  LET x == RmwX(op, v, f)
  IN CASE op \in {4, 6, 7} -> <<x[1], V(x[2], Bit(f, 1))>>
       [] op = 13 -> <<v, C(x[2], f % 2)>>
       [] OTHER -> x

\* bytes of the registers selected by mask, in the order they are pushed
P9Bytes(r, other, mask, pc) ==
  LET s(i, x) == IF Bit(mask, i) = 1 THEN x ELSE << >>
      w(v) == <<Lo(v), Hi(v)>>
  IN s(7, w(pc)) \o s(6, w(r[other])) \o s(5, w(r.Y)) \o s(4, w(r.X)) \o s(3, <<r.DP>>) \o s(2, <<r.B>>) \o s(1, <<r.A>>) \o s(0, <<r.CC>>)
P9Push(r, m, sp, other, mask, pc) ==
  LET b == P9Bytes(r, other, mask, pc)
      mm == FoldLeft(LAMBDA a, i : TLCEval(WB(a, B16(r[sp] - i), b[i])), m, [i \in 1..Len(b) |-> i])
  IN <<[r EXCEPT ![sp] = B16(@ - Len(b))], mm>>
P9Pull(r, m, sp, other, mask, pc) ==
  LET g(i) == Bit(mask, i)
      a1 == r[sp] + g(0)
      a2 == a1 + g(1)
      a3 == a2 + g(2)
      a4 == a3 + g(3)
      a5 == a4 + 2 * g(4)
      a6 == a5 + 2 * g(5)
      a7 == a6 + 2 * g(6)
      a8 == a7 + 2 * g(7)
      q0 == [r EXCEPT ![sp] = B16(a8)]
      q == [q0 EXCEPT !.CC = IF g(0) = 1 THEN B(m, r[sp]) ELSE @, !.A = IF g(1) = 1 THEN B(m, a1) ELSE @,
                      !.B = IF g(2) = 1 THEN B(m, a2) ELSE @, !.DP = IF g(3) = 1 THEN B(m, a3) ELSE @,
                      !.X = IF g(4) = 1 THEN M16(m, a4) ELSE @, !.Y = IF g(5) = 1 THEN M16(m, a5) ELSE @]
  IN [[q EXCEPT ![other] = IF g(6) = 1 THEN M16(m, a6) ELSE @] EXCEPT !.PC = IF g(7) = 1 THEN M16(m, a7) ELSE pc]

P9Get(r, k, pc) == CASE k = 0 -> W16(r.A, r.B) [] k = 1 -> r.X [] k = 2 -> r.Y [] k = 3 -> r.U [] k = 4 -> r.S [] k = 5 -> pc
                     [] k = 8 -> r.A [] k = 9 -> r.B [] k = 10 -> r.CC [] k = 11 -> r.DP
P9Set(r, k, v) == CASE k = 0 -> [r EXCEPT !.A = Hi(v), !.B = Lo(v)] [] k = 1 -> [r EXCEPT !.X = v] [] k = 2 -> [r EXCEPT !.Y = v]
                    [] k = 3 -> [r EXCEPT !.U = v] [] k = 4 -> [r EXCEPT !.S = v] [] k = 5 -> [r EXCEPT !.PC = v]
                    [] k = 8 -> [r EXCEPT !.A = v] [] k = 9 -> [r EXCEPT !.B = v] [] k = 10 -> [r EXCEPT !.CC = v] [] k = 11 -> [r EXCEPT !.DP = v]

M6809Exec(r, m) ==
  LET op0 == Rd(m, r.PC)
      pg == IF op0 \in {16, 17} THEN op0 - 15 ELSE 0       \* page of the instruction
      op == IF pg > 0 THEN B(m, r.PC + 1) ELSE op0
      o == B16(r.PC + IF pg > 0 THEN 2 ELSE 1)
      f == r.CC
      x2 == op \div 16
      lo == op % 16
      acc == IF op < 192 THEN "A" ELSE "B"
      \* addressing mode: 0 immediate, 1 direct, 2 indexed, 3 extended
      mo == IF op < 128 THEN (CASE x2 = 0 -> 1 [] x2 = 6 -> 2 [] x2 = 7 -> 3 [] OTHER -> 0) ELSE x2 % 4
      ix == P9Idx(r, m, o)
      n8 == CASE mo = 0 -> 1 [] mo = 1 -> 1 [] mo = 2 -> ix.n [] mo = 3 -> 2
      n16 == IF mo = 0 THEN 2 ELSE n8
      ea == CASE mo = 0 -> o [] mo = 1 -> W16(r.DP, B(m, o)) [] mo = 2 -> ix.ea [] mo = 3 -> M16(m, o)
      q == IF mo = 2 THEN ix.r ELSE r                      \* registers after address calculation
      w16 == M16(m, ea)
      v8 == B(m, ea)
      D == W16(q.A, q.B)
      R(s, mm, pc, u) == [r |-> [s EXCEPT !.PC = B16(pc)], m |-> mm, t |-> -1, u |-> u]
      g(s, n) == R(s, m, o + n, << >>)
      gm(s, mm, n) == R(s, mm, o + n, << >>)
      hu(s, n) == R(s, m, o + n, [CC |-> 32])              \* H is not defined
      setD(s, v) == [s EXCEPT !.A = Hi(v), !.B = Lo(v)]
      ld16(rg) == LET s == [q EXCEPT !.CC = V(NZ16(@, w16), 0)]
                  IN g(IF rg = "D" THEN setD(s, w16) ELSE [s EXCEPT ![rg] = w16], n16)
      st16(v) == gm([q EXCEPT !.CC = V(NZ16(@, v), 0)], WW(m, ea, v), n8)
      cmp16(v) == g([q EXCEPT !.CC = FSub16(@, v, w16)], n16)
      call(s, pc, ret) == LET p == P9Push(s, m, "S", "U", 128, B16(ret)) IN R(p[1], p[2], pc, << >>)
      swi(vec, mask) == LET e == [r EXCEPT !.CC = @ | 128]
                            p == P9Push(e, m, "S", "U", 255, o)
                        IN R([p[1] EXCEPT !.CC = @ | mask], p[2], M16(p[2], vec), << >>)
      lea(rg, z) == LET i == P9Idx(r, m, o)
                        s == [i.r EXCEPT ![rg] = i.ea]
                    IN g(IF z THEN [s EXCEPT !.CC = Z(@, I(i.ea = 0))] ELSE s, i.n)
      reg == IF x2 = 4 THEN "A" ELSE "B"
      pb == B(m, o)
  IN
  CASE pg > 0 /\ op = 63 -> swi(IF pg = 1 THEN 65524 ELSE 65522, 0)
    [] pg = 1 /\ x2 = 2 -> R(r, m, o + 2 + IF Taken(lo, f) THEN M16(m, o) ELSE 0, << >>)
    [] pg = 1 /\ lo = 3 -> cmp16(D)
    [] pg = 1 /\ lo = 12 -> cmp16(q.Y)
    [] pg = 1 /\ lo = 14 -> ld16(IF op < 192 THEN "Y" ELSE "S")
    [] pg = 1 /\ lo = 15 -> st16(IF op < 192 THEN q.Y ELSE q.S)
    [] pg = 2 /\ lo = 3 -> cmp16(q.U)
    [] pg = 2 /\ lo = 12 -> cmp16(q.S)
    [] x2 \in {0, 6, 7} /\ lo = 14 -> R(q, m, ea, << >>)
    [] x2 \in {0, 6, 7} -> LET x == P9Rmw(lo, v8, f)
         IN R([q EXCEPT !.CC = x[2]], IF lo = 13 THEN m ELSE WB(m, ea, x[1]), o + n8, IF lo \in {0, 7, 8} THEN [CC |-> 32] ELSE << >>)
    [] x2 \in {4, 5} -> LET x == P9Rmw(lo, r[reg], f)
         IN R([[r EXCEPT ![reg] = x[1]] EXCEPT !.CC = x[2]], m, o, IF lo \in {0, 7, 8} THEN [CC |-> 32] ELSE << >>)
    [] op = 18 -> g(r, 0)
    [] op = 22 -> R(r, m, o + 2 + M16(m, o), << >>)
    [] op = 23 -> call(r, o + 2 + M16(m, o), o + 2)
    [] op = 25 -> LET d == Daa(r) IN R(d, m, o, [CC |-> 2])
    [] op = 26 -> g([r EXCEPT !.CC = @ | pb], 1)
    [] op = 28 -> g([r EXCEPT !.CC = @ & pb], 1)
    [] op = 29 -> LET x == IF r.B >= 128 THEN 255 ELSE 0 IN g([r EXCEPT !.A = x, !.CC = Z(N(@, Bit(x, 7)), I(r.B = 0))], 0)
    [] op = 30 -> LET a == pb \div 16 b == pb % 16
                      p == [r EXCEPT !.PC = B16(o + 1)]
                      s == P9Set(P9Set(p, a, P9Get(p, b, p.PC)), b, P9Get(p, a, p.PC)) IN R(s, m, s.PC, << >>)
    [] op = 31 -> LET p == [r EXCEPT !.PC = B16(o + 1)] s == P9Set(p, pb % 16, P9Get(p, pb \div 16, p.PC)) IN R(s, m, s.PC, << >>)
    [] x2 = 2 -> R(r, m, o + 1 + IF Taken(lo, f) THEN S8(pb) ELSE 0, << >>)
    [] op = 48 -> lea("X", TRUE) [] op = 49 -> lea("Y", TRUE) [] op = 50 -> lea("S", FALSE) [] op = 51 -> lea("U", FALSE)
    [] op = 52 -> LET p == P9Push(r, m, "S", "U", pb, B16(o + 1)) IN gm(p[1], p[2], 1)
    [] op = 54 -> LET p == P9Push(r, m, "U", "S", pb, B16(o + 1)) IN gm(p[1], p[2], 1)
    [] op = 53 -> LET s == P9Pull(r, m, "S", "U", pb, B16(o + 1)) IN R(s, m, s.PC, << >>)
    [] op = 55 -> LET s == P9Pull(r, m, "U", "S", pb, B16(o + 1)) IN R(s, m, s.PC, << >>)
    [] op = 57 -> LET s == P9Pull(r, m, "S", "U", 128, 0) IN R(s, m, s.PC, << >>)
    [] op = 58 -> g([r EXCEPT !.X = B16(@ + r.B)], 0)
    [] op = 59 -> LET s == P9Pull(r, m, "S", "U", IF B(m, r.S) >= 128 THEN 255 ELSE 129, 0) IN R(s, m, s.PC, << >>)
    [] op = 61 -> LET x == r.A * r.B IN g([setD(r, x) EXCEPT !.CC = C(Z(@, I(x = 0)), Bit(x, 7))], 0)
    [] op = 63 -> swi(65530, 80)
    [] op = 141 -> call(r, o + 1 + S8(pb), o + 1)
    [] lo = 3 -> IF op < 192 THEN g([setD(q, B16(D - w16)) EXCEPT !.CC = FSub16(@, D, w16)], n16)
                 ELSE g([setD(q, B16(D + w16)) EXCEPT !.CC = FAdd16(@, D, w16)], n16)
    [] lo = 7 -> gm([q EXCEPT !.CC = V(NZ(@, q[acc]), 0)], WB(m, ea, q[acc]), n8)
    [] lo = 12 -> IF op < 192 THEN cmp16(q.X) ELSE ld16("D")
    [] lo = 13 -> IF op < 192 THEN call(q, ea, o + n8) ELSE st16(D)
    [] lo = 14 -> ld16(IF op < 192 THEN "X" ELSE "U")
    [] lo = 15 -> st16(IF op < 192 THEN q.X ELSE q.U)
    [] OTHER -> LET x == Alu(lo, q[acc], v8, f)
                    s == [[q EXCEPT ![acc] = x[1]] EXCEPT !.CC = x[2]]
                IN IF lo \in {0, 1, 2} THEN hu(s, n8) ELSE g(s, n8)
=============================================================================
