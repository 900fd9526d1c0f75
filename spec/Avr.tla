-------------------------------- MODULE Avr ---------------------------------
(* AVR (classic core): the effect and the duration of one instruction.
   Program memory: space 0, 64k words.  Data memory: space 1; R0-R31 at 0..31,
   I/O registers at 32..95 (SPL 93, SPH 94, SREG 95).
   SREG: I(7) T(6) H(5) S(4) V(3) N(2) Z(1) C(0) *)
EXTENDS IsaMem

AvrSettle(m) == m
DA(a) == SPC + B16(a)
D(m, a) == Rd(m, DA(a))
WD(m, a, v) == Wr(m, DA(a), B8(v))
Pair(m, a) == W16(D(m, a + 1), D(m, a))
WPair(m, a, v) == WD(WD(m, a, Lo(v)), a + 1, Hi(v))
SREG == 95
Sr(m) == D(m, SREG)
WSr(m, f) == WD(m, SREG, f)
SP(m) == Pair(m, 93)
PushB(m, v) == WPair(WD(m, SP(m), v), 93, B16(SP(m) - 1))
PopB(m) == WPair(m, 93, B16(SP(m) + 1))          \* the byte is at the new SP
\* low byte first, so the high byte ends up at the lower address
PushA(m, a) == PushB(PushB(m, Lo(a)), Hi(a))
PopA(m) == <<W16(D(m, SP(m) + 1), D(m, SP(m) + 2)), WPair(m, 93, B16(SP(m) + 2))>>

\* flags: S is N exclusive-or V
NZVS(f, n, z, v) == SetBit(SetBit(SetBit(SetBit(f, 2, n), 1, z), 3, v), 4, (n + v) % 2)
C(f, c) == SetBit(f, 0, c)
H(f, h) == SetBit(f, 5, h)
N8(x) == Bit(x, 7)
Ovf(a, b, x) == I(Bit(a, 7) = Bit(b, 7) /\ Bit(x, 7) # Bit(a, 7))
OvfS(a, b, x) == I(Bit(a, 7) # Bit(b, 7) /\ Bit(x, 7) # Bit(a, 7))

AddF(f, a, b, ci) == LET x == B8(a + b + ci) IN
  <<x, H(C(NZVS(f, N8(x), I(x = 0), Ovf(a, b, x)), CarryAt(a, b, ci, 8)), CarryAt(a, b, ci, 4))>>
\* keep: Z is only cleared (subtractions with carry)
SubF(f, a, b, ci, keep) == LET x == B8(a - b - ci) IN
  <<x, H(C(NZVS(f, N8(x), IF keep THEN I(x = 0 /\ Bit(f, 1) = 1) ELSE I(x = 0), OvfS(a, b, x)), BorrowAt(a, b, ci, 8)), BorrowAt(a, b, ci, 4))>>
LogF(f, x) == NZVS(f, N8(x), I(x = 0), 0)

\* two word instructions
IsLong(w) == (w & 65039) \in {36864, 37376} \/ (w & 65036) = 37900   \* LDS, STS; JMP, CALL
Long(m, a) == I(IsLong(Rd(m, B16(a))))

AvrExec(r, m) ==
  LET w == Rd(m, r.PC)
      nx == B16(r.PC + 1)
      nw == Rd(m, nx)
      d == (w \div 16) % 32
      rr == (w % 16) + (16 * Bit(w, 9))
      dh == 16 + ((w \div 16) % 16)
      K == (16 * ((w \div 256) % 16)) + (w % 16)
      A5 == 32 + ((w \div 8) % 32)
      A6 == 32 + (w % 16) + (16 * ((w \div 512) % 4))
      b == w % 8
      q == (w % 8) + (8 * ((w \div 1024) % 4)) + (32 * Bit(w, 13))
      dl == 24 + (2 * ((w \div 16) % 4))
      K6 == (w % 16) + (16 * ((w \div 64) % 4))
      c == Sr(m) % 2
      f == Sr(m)
      vd == D(m, d)
      vr == D(m, rr)
      vh == D(m, dh)
      R(mm, pc, t) == [r |-> [r EXCEPT !.PC = B16(pc)], m |-> mm, t |-> t, u |-> << >>]
      g(mm, t) == R(mm, nx, t)
      put(x) == WSr(WD(m, d, x[1]), x[2])              \* result and flags
      puth(x) == WSr(WD(m, dh, x[1]), x[2])
      log(x) == g(WSr(WD(m, d, x), LogF(f, x)), 1)
      skip(cond) == IF cond THEN R(m, nx + 1 + Long(m, nx), 2 + Long(m, nx)) ELSE g(m, 1)
      rel(n, bits) == LET p == 2^bits IN nx + (IF n >= p \div 2 THEN n - p ELSE n)
      op == w \div 4096
      six == w \div 1024
      lo4 == w % 16
      ld(p, dec, inc) ==
        LET a == B16(Pair(m, p) - dec) m1 == IF dec + inc > 0 THEN WPair(m, p, B16(Pair(m, p) - dec + inc)) ELSE m IN
        IF Bit(w, 9) = 0 THEN g(WD(m1, d, D(IF dec > 0 THEN m1 ELSE m, a)), 2)
        ELSE g(IF inc > 0 THEN WPair(WD(m, a, vd), p, B16(a + 1)) ELSE WD(m1, a, D(m1, d)), 2)
  IN
  CASE w = 0 -> g(m, 1)
    [] six = 1 -> LET x == SubF(f, vd, vr, c, TRUE) IN g(WSr(m, x[2]), 1)              \* CPC
    [] six = 2 -> g(put(SubF(f, vd, vr, c, TRUE)), 1)                                  \* SBC
    [] six = 3 -> g(put(AddF(f, vd, vr, 0)), 1)                                        \* ADD
    [] six = 4 -> skip(vd = vr)                                                        \* CPSE
    [] six = 5 -> g(WSr(m, SubF(f, vd, vr, 0, FALSE)[2]), 1)                           \* CP
    [] six = 6 -> g(put(SubF(f, vd, vr, 0, FALSE)), 1)                                 \* SUB
    [] six = 7 -> g(put(AddF(f, vd, vr, c)), 1)                                        \* ADC
    [] six = 8 -> log(vd & vr)
    [] six = 9 -> log(vd ^^ vr)
    [] six = 10 -> log(vd | vr)
    [] six = 11 -> g(WD(m, d, vr), 1)                                                  \* MOV
    [] op = 3 -> g(WSr(m, SubF(f, vh, K, 0, FALSE)[2]), 1)                             \* CPI
    [] op = 4 -> g(puth(SubF(f, vh, K, c, TRUE)), 1)                                   \* SBCI
    [] op = 5 -> g(puth(SubF(f, vh, K, 0, FALSE)), 1)                                  \* SUBI
    [] op = 6 -> g(puth(<<vh | K, LogF(f, vh | K)>>), 1)                               \* ORI
    [] op = 7 -> g(puth(<<vh & K, LogF(f, vh & K)>>), 1)                               \* ANDI
    [] op \in {8, 10} ->                                                              \* LDD/STD Y+q, Z+q
         LET a == B16(Pair(m, IF Bit(w, 3) = 1 THEN 28 ELSE 30) + q) IN
         g(IF Bit(w, 9) = 0 THEN WD(m, d, D(m, a)) ELSE WD(m, a, vd), 2)
    [] op = 9 /\ six = 36 /\ lo4 = 0 ->                                                \* LDS/STS
         R(IF Bit(w, 9) = 0 THEN WD(m, d, D(m, nw)) ELSE WD(m, nw, vd), nx + 1, 3)
    [] op = 9 /\ six = 36 /\ lo4 = 1 -> ld(30, 0, 1)
    [] op = 9 /\ six = 36 /\ lo4 = 2 -> ld(30, 1, 0)
    [] op = 9 /\ six = 36 /\ lo4 = 9 -> ld(28, 0, 1)
    [] op = 9 /\ six = 36 /\ lo4 = 10 -> ld(28, 1, 0)
    [] op = 9 /\ six = 36 /\ lo4 = 12 -> ld(26, 0, 0)
    [] op = 9 /\ six = 36 /\ lo4 = 13 -> ld(26, 0, 1)
    [] op = 9 /\ six = 36 /\ lo4 = 14 -> ld(26, 1, 0)
    [] op = 9 /\ six = 36 /\ lo4 = 15 ->                                               \* POP, PUSH
         IF Bit(w, 9) = 0 THEN g(WD(PopB(m), d, D(m, SP(m) + 1)), 2) ELSE g(PushB(m, vd), 2)
    [] w = 38344 ->                                                                   \* LPM
         LET z == Pair(m, 30) x == Rd(m, z \div 2) IN g(WD(m, 0, IF z % 2 = 1 THEN Hi(x) ELSE Lo(x)), 3)
    [] (w & 65423) = 37896 -> g(WSr(m, SetBit(f, (w \div 16) % 8, 1)), 1)              \* BSET
    [] (w & 65423) = 38024 -> g(WSr(m, SetBit(f, (w \div 16) % 8, 0)), 1)              \* BCLR
    [] w = 37897 -> R(m, Pair(m, 30), 2)                                              \* IJMP
    [] w = 38153 -> R(PushA(m, nx), Pair(m, 30), 3)                                   \* ICALL
    [] w = 38152 -> LET x == PopA(m) IN R(x[2], x[1], 4)                              \* RET
    [] w = 38168 -> LET x == PopA(m) IN R(WSr(x[2], SetBit(Sr(x[2]), 7, 1)), x[1], 4) \* RETI
    [] w \in {38280, 38312} -> g(m, 1)                                                \* SLEEP, WDR
    [] op = 9 /\ w \div 512 = 74 /\ lo4 = 0 ->                                         \* COM
         LET x == 255 - vd IN g(put(<<x, C(LogF(f, x), 1)>>), 1)
    [] op = 9 /\ w \div 512 = 74 /\ lo4 = 1 -> g(put(SubF(f, 0, vd, 0, FALSE)), 1)     \* NEG
    [] op = 9 /\ w \div 512 = 74 /\ lo4 = 2 -> g(WD(m, d, (16 * (vd % 16)) + (vd \div 16)), 1)
    [] op = 9 /\ w \div 512 = 74 /\ lo4 = 3 ->                                         \* INC
         LET x == B8(vd + 1) IN g(put(<<x, NZVS(f, N8(x), I(x = 0), I(x = 128))>>), 1)
    [] op = 9 /\ w \div 512 = 74 /\ lo4 = 10 ->                                        \* DEC
         LET x == B8(vd - 1) IN g(put(<<x, NZVS(f, N8(x), I(x = 0), I(x = 127))>>), 1)
    [] op = 9 /\ w \div 512 = 74 /\ lo4 \in {5, 6, 7} ->                               \* ASR, LSR, ROR
         LET x == (vd \div 2) + (128 * (CASE lo4 = 5 -> Bit(vd, 7) [] lo4 = 6 -> 0 [] lo4 = 7 -> c))
         IN g(put(<<x, C(NZVS(f, N8(x), I(x = 0), (N8(x) + vd) % 2), vd % 2)>>), 1)
    [] op = 9 /\ (w \div 512) = 74 /\ lo4 \in {12, 13} -> R(m, nw, 3)                  \* JMP
    [] op = 9 /\ (w \div 512) = 74 /\ lo4 \in {14, 15} -> R(PushA(m, nx + 1), nw, 4)   \* CALL
    [] w \div 256 \in {150, 151} ->                                                   \* ADIW, SBIW
         LET a == Pair(m, dl) sub == w \div 256 = 151
             x == B16(IF sub THEN a - K6 ELSE a + K6)
             v == IF sub THEN I(Bit(a, 15) = 1 /\ Bit(x, 15) = 0) ELSE I(Bit(a, 15) = 0 /\ Bit(x, 15) = 1)
             cy == IF sub THEN I(K6 > a) ELSE I(a + K6 > 65535)
         IN g(WSr(WPair(m, dl, x), C(NZVS(f, Bit(x, 15), I(x = 0), v), cy)), 2)
    [] w \div 256 = 152 -> g(WD(m, A5, SetBit(D(m, A5), b, 0)), 2)                      \* CBI
    [] w \div 256 = 154 -> g(WD(m, A5, SetBit(D(m, A5), b, 1)), 2)                      \* SBI
    [] w \div 256 = 153 -> skip(Bit(D(m, A5), b) = 0)                                  \* SBIC
    [] w \div 256 = 155 -> skip(Bit(D(m, A5), b) = 1)                                  \* SBIS
    [] six = 39 -> LET x == vd * vr                                                    \* MUL
                   IN g(WSr(WPair(m, 0, x), SetBit(C(f, Bit(x, 15)), 1, I(x = 0))), 2)
    [] op = 11 -> g(IF Bit(w, 11) = 0 THEN WD(m, d, D(m, A6)) ELSE WD(m, A6, vd), 1)    \* IN, OUT
    [] op = 12 -> R(m, rel(w % 4096, 12), 2)                                          \* RJMP
    [] op = 13 -> R(PushA(m, nx), rel(w % 4096, 12), 3)                               \* RCALL
    [] op = 14 -> g(WD(m, dh, K), 1)                                                  \* LDI
    [] six \in {60, 61} ->                                                            \* BRBS, BRBC
         IF Bit(f, b) = 61 - six THEN R(m, rel((w \div 8) % 128, 7), 2) ELSE g(m, 1)
    [] (w \div 512) = 124 -> g(WD(m, d, SetBit(vd, b, Bit(f, 6))), 1)                   \* BLD
    [] (w \div 512) = 125 -> g(WSr(m, SetBit(f, 6, Bit(vd, b))), 1)                     \* BST
    [] (w \div 512) = 126 -> skip(Bit(vd, b) = 0)                                      \* SBRC
    [] (w \div 512) = 127 -> skip(Bit(vd, b) = 1)                                      \* SBRS
=============================================================================
