-------------------------------- MODULE Oisc --------------------------------
(* One instruction computers: r.K = 0 Ultimate RISC (URISC), 1 MISC16, 2 extended MISC16 (EM).
   An instruction is two words, source and destination address; one word is moved.  Registers and
   arithmetic are at special addresses.  F of URISC: O 8, N 4, C 2, Z 1. *)
EXTENDS IsaMem

OiscSettle(m) == m
OW(m, a) == Rd(m, B16(a))
OBit(f, n) == IF Bit(f, n) = 1 THEN 2 ELSE 0

\* << value, registers >> after reading source s
OiscSrc(r, m, s) ==
  LET o == OBit(r.F, 3) n == OBit(r.F, 2) c == OBit(r.F, 1) z == OBit(r.F, 0) IN
  IF r.K = 0
  THEN << CASE s = 65520 -> r.A [] s = 65521 -> n [] s = 65522 -> z [] s = 65523 -> o [] s = 65524 -> c
            [] s = 65525 -> n ^^ o [] s = 65526 -> (n ^^ o) | z [] s = 65527 -> c ^^ (2 - z) [] s = 65535 -> r.PC
            [] OTHER -> OW(m, s), r >>
  ELSE CASE s \in 0..3 -> << B16(r.PC + (2 * s)), r >>
         [] s = 7 -> << OW(m, r.A), r >>
         [] s = 8 -> << r.A, r >>
         [] r.K = 2 /\ s = 5 -> << r.P, r >>
         [] r.K = 2 /\ s = 6 -> << OW(m, r.P), [r EXCEPT !.P = B16(@ + 1)] >>
         [] r.K = 2 /\ s = 10 -> << OW(m, r.A), [r EXCEPT !.A = B16(@ + 1)] >>
         [] OTHER -> << OW(m, s), r >>

\* sum of URISC with its flags
OiscSum(r, a, b, c) ==
  LET s == a + b + c x == B16(s)
  IN [r EXCEPT !.A = x, !.F = (8 * I((a \div 32768 = b \div 32768) /\ (x \div 32768 # a \div 32768)))
                              + (4 * (x \div 32768)) + (2 * (s \div 65536)) + I(x = 0)]

OiscExec(r0, m) ==
  LET s == OW(m, r0.PC)
      d == OW(m, r0.PC + 1)
      sr == OiscSrc(r0, m, s)
      v == sr[1]
      r == [sr[2] EXCEPT !.PC = B16(@ + 2)]
      R(q, mm) == [r |-> q, m |-> mm, t |-> -1, u |-> << >>]
      A(x) == R([r EXCEPT !.A = x], m)
      jump(c) == R(IF c THEN [r EXCEPT !.PC = v] ELSE r, m)
      st(q, a) == R(q, Wr(m, B16(a), v))
  IN IF r.K = 0
     THEN CASE d = 65520 -> A(v)
            [] d = 65521 -> R(OiscSum(r, r.A, 65535 - v, 1), m)
            [] d = 65522 -> R(OiscSum(r, v, 65535 - r.A, 1), m)
            [] d = 65523 -> R(OiscSum(r, r.A, v, 0), m)
            [] d = 65524 -> A(r.A ^^ v) [] d = 65525 -> A(r.A & v) [] d = 65526 -> A(r.A | v)
            [] d = 65527 -> A(v \div 2)
            [] d = 65535 -> jump(TRUE)
            [] OTHER -> st(r, d)
     ELSE CASE d = 0 -> jump(TRUE) [] d = 1 -> jump(r.A >= 32768) [] d = 2 -> jump(r.A = 0) [] d = 4 -> jump(r.C = 1)
            [] d = 7 -> st(r, r.A)
            [] d = 8 -> A(v)
            [] d = 9 -> R([r EXCEPT !.A = B16(r.A - v), !.C = I(r.A < v)], m)
            [] d = 11 -> R([r EXCEPT !.A = B16(r.A + v), !.C = I(r.A + v > 65535)], m)
            [] d = 12 -> A(r.A ^^ v) [] d = 13 -> A(r.A | v) [] d = 14 -> A(r.A & v)
            [] d = 15 -> R([r EXCEPT !.A = (v \div 2) + (32768 * r.C), !.C = v % 2], m)
            [] r.K = 2 /\ d = 5 -> R([r EXCEPT !.P = v], m)
            [] r.K = 2 /\ d = 6 -> st([r EXCEPT !.P = B16(@ - 1)], r.P - 1)
            [] r.K = 2 /\ d = 10 -> st([r EXCEPT !.A = B16(@ + 1)], r.A)
            [] OTHER -> st(r, d)
=============================================================================
