------------------------------ MODULE Mcs51Hw -------------------------------
(* An 8052 with its interrupt system and timers (Intel, "MCS-51 Hardware
   Description"): one step is an instruction (or a machine cycle of Idle mode),
   followed by the machine cycles of the timers it took, followed by the acceptance
   of an interrupt.  On top of the instruction set (Mcs51) the state has
     r.pins   levels the environment gives to the pins of ports 0 .. 3
     r.e1 e3  levels seen on P1 and P3 (pins and port latch) at the last step
     r.lv     priority levels of the interrupt services in progress, newest first
     r.u      state of the UART's transmitter and receiver; inp = bytes still to come in
     r.OUT    bytes the UART has sent *)
EXTENDS Mcs51

aTCON == 136  aTMOD == 137  aP1 == 144  aP3 == 176  aIE == 168  aIP == 184
aPCON == 135  aSCON == 152  aT2CON == 200  aRCAP2L == 202  aRCAP2H == 203  aTL2 == 204  aTH2 == 205  aSBUF == 153  aT2MOD == 201
TLa(i) == 138 + i
THa(i) == 140 + i
S(m, a) == Rd(m, SFR(a))
Sb(m, a, i) == Bit(Rd(m, SFR(a)), i)
Put(m, a, v) == IF Rd(m, SFR(a)) = v THEN m ELSE Wr(m, SFR(a), v)
PutB(m, a, i, b) == Put(m, a, SetBit(S(m, a), i, b))
Fell(o, n, i) == I(Bit(o, i) = 1 /\ Bit(n, i) = 0)

\* Timers 0 and 1.  p3: level of port 3; e: falling edges of T0/T1 seen
\* overflow of timer i: the flag if it drives one, and a clock for the UART
Over(m, i, tf) ==
  LET m1 == IF tf THEN PutB(m, aTCON, 5 + 2 * i, 1) ELSE m
  IN IF i = 0 THEN m1
     ELSE LET c == S(m, aT2CON) IN
          [m1 EXCEPT !.u.to = @ + (1 - Bit(c, 4)), !.u.ro = @ + (1 - Bit(c, 5))]
Bump8(m, i, tf) ==       \* 8 bit counter with reload
  LET v == B8(S(m, TLa(i)) + 1) IN
  IF v # 0 THEN Put(m, TLa(i), v)
  ELSE LET m1 == Put(m, TLa(i), S(m, THa(i))) IN Over(m1, i, tf)
CarryTH(m, i, tf) ==
  LET v == B8(S(m, THa(i)) + 1) m1 == Put(m, THa(i), v) IN IF v = 0 THEN Over(m1, i, tf) ELSE m1
Bump16(m, i, tf) ==
  LET v == B8(S(m, TLa(i)) + 1) m1 == Put(m, TLa(i), v) IN IF v = 0 THEN CarryTH(m1, i, tf) ELSE m1
Bump13(m, i, tf) ==      \* TL is a 5 bit prescaler
  LET v == B8(S(m, TLa(i)) + 1)
  IN IF v % 32 # 0 THEN Put(m, TLa(i), v) ELSE CarryTH(Put(m, TLa(i), 0), i, tf)
BumpTL(m, i, tf) ==      \* 8 bit counter without reload (mode 3)
  LET v == B8(S(m, TLa(i)) + 1) m1 == Put(m, TLa(i), v) IN IF v = 0 THEN Over(m1, i, tf) ELSE m1
RECURSIVE Rep(_, _, _, _, _)
Rep(F(_, _, _), m, i, tf, n) == IF n = 0 THEN m ELSE Rep(F, TLCEval(F(m, i, tf)), i, tf, n - 1)

TMode(m, i) == (S(m, aTMOD) \div Pow2(4 * i)) % 4
Open(m, i, p3) == Sb(m, aTMOD, 3 + 4 * i) = 0 \/ Bit(p3, 2 + i) = 1        \* GATE
Steps(m, i, e) == IF Sb(m, aTMOD, 2 + 4 * i) = 1 THEN e ELSE 1             \* C/T

Timer0(m, p3, e) ==
  LET md == TMode(m, 0)
      n == IF Sb(m, aTCON, 4) = 1 /\ Open(m, 0, p3) THEN Steps(m, 0, e) ELSE 0
      m1 == CASE md = 0 -> Rep(Bump13, m, 0, TRUE, n) [] md = 1 -> Rep(Bump16, m, 0, TRUE, n)
              [] md = 2 -> Rep(Bump8, m, 0, TRUE, n)  [] md = 3 -> Rep(BumpTL, m, 0, TRUE, n)
  IN IF md = 3 /\ Sb(m, aTCON, 6) = 1
     THEN LET v == B8(S(m1, THa(0)) + 1) m2 == Put(m1, THa(0), v) IN IF v = 0 THEN PutB(m2, aTCON, 7, 1) ELSE m2
     ELSE m1
Timer1(m, p3, e) ==
  LET md == TMode(m, 1)
      split == TMode(m, 0) = 3           \* timer 0 has taken over TR1 and TF1
      n == IF (split \/ Sb(m, aTCON, 6) = 1) /\ Open(m, 1, p3) THEN Steps(m, 1, e) ELSE 0
  IN CASE md = 0 -> Rep(Bump13, m, 1, ~split, n) [] md = 1 -> Rep(Bump16, m, 1, ~split, n)
       [] md = 2 -> Rep(Bump8, m, 1, ~split, n)  [] md = 3 -> m

\* Timer 2.  e: edges of T2, x: edges of T2EX
Reload2(m) == Put(Put(m, aTL2, S(m, aRCAP2L)), aTH2, S(m, aRCAP2H))
RECURSIVE Count2(_, _, _)  RECURSIVE UpDown2(_, _)
Count2(m, n, md) ==
  IF n = 0 THEN m
  ELSE LET v == B16(W16(S(m, aTH2), S(m, aTL2)) + 1)
           m1 == TLCEval(Put(Put(m, aTL2, Lo(v)), aTH2, Hi(v)))
           m2 == IF v # 0 THEN m1
                 ELSE CASE md = "reload" -> PutB(Reload2(m1), aT2CON, 7, 1)
                        [] md = "capture" -> PutB(m1, aT2CON, 7, 1)
                        [] md = "baud" -> LET c == S(m, aT2CON) IN
                             [Reload2(m1) EXCEPT !.u.to = @ + Bit(c, 4), !.u.ro = @ + Bit(c, 5)]
       IN Count2(TLCEval(m2), n - 1, md)
\* up/down counter (DCEN): the level of T2EX selects the direction; each overflow and
\* each underflow sets TF2 and toggles EXF2
UpDown2(m, n) ==
  IF n = 0 THEN m
  ELSE LET up == Bit(m.p[2] & S(m, aP1), 1) = 1
           w == W16(S(m, aTH2), S(m, aTL2))
           v == B16(IF up THEN w + 1 ELSE w + 65535)
           end == IF up THEN v = 0 ELSE w <= W16(S(m, aRCAP2H), S(m, aRCAP2L))
           m1 == IF ~end THEN Put(Put(m, aTL2, Lo(v)), aTH2, Hi(v))
                 ELSE LET m2 == IF up THEN Reload2(m) ELSE Put(Put(m, aTL2, 255), aTH2, 255)
                      IN PutB(PutB(m2, aT2CON, 7, 1), aT2CON, 6, 1 - Sb(m, aT2CON, 6))
       IN UpDown2(TLCEval(m1), n - 1)
Mode2(m) ==
  LET c == S(m, aT2CON)
  IN IF Bit(c, 5) = 1 \/ Bit(c, 4) = 1 THEN "baud" ELSE IF Bit(c, 0) = 1 THEN "capture"
     ELSE IF Sb(m, aT2MOD, 0) = 1 THEN "updown" ELSE "reload"
Timer2(m, e, x) ==
  LET c == S(m, aT2CON)
      md == Mode2(m)
      m1 == IF Bit(c, 3) = 0 \/ x = 0 \/ md = "updown" THEN m
            ELSE LET f == PutB(m, aT2CON, 6, 1) IN
                 CASE md = "baud" -> f
                   [] md = "capture" -> Put(Put(f, aRCAP2L, S(m, aTL2)), aRCAP2H, S(m, aTH2))
                   [] md = "reload" -> Reload2(f)
      n == IF Bit(c, 2) = 0 THEN 0 ELSE IF Bit(c, 1) = 1 THEN e ELSE IF md = "baud" THEN 6 ELSE 1
  IN IF md = "updown" THEN UpDown2(m, n) ELSE Count2(m1, n, md)

\* UART: one machine cycle.  Modes 0 and 2 are clocked by the oscillator, 1 and 3 by
\* overflows of timer 1, or of timer 2 for the direction(s) T2CON selects
Bits == << 8, 10, 11, 11 >>
Div(m, md, t2) == CASE md = 0 -> 12 [] md = 2 -> IF Sb(m, aPCON, 7) = 1 THEN 32 ELSE 64
                    [] OTHER -> IF t2 = 1 \/ Sb(m, aPCON, 7) = 1 THEN 16 ELSE 32
Serial(m) ==
  LET u == m.u
      md == S(m, aSCON) \div 64
      n == Bits[md + 1]
      timed == md \in {1, 3}
      dt == Div(m, md, Sb(m, aT2CON, 4))
      dr == Div(m, md, Sb(m, aT2CON, 5))
      ta == IF timed THEN u.to ELSE u.tc
      ra == IF timed THEN u.ro ELSE u.rc
      tb == u.tb + ta \div dt
      rb == u.rb + ra \div dr
      sent == u.ts /\ tb >= n
      start == ~u.rs /\ Sb(m, aSCON, 4) = 1 /\ u.inp # << >>
      recd == u.rs /\ rb >= n
      m1 == IF sent THEN PutB(m, aSCON, 1, 1) ELSE m
      m2 == IF recd THEN PutB(Put(m1, aSBUF, u.cur), aSCON, 0, 1) ELSE m1
      ta2 == IF u.ts THEN ta % dt ELSE ta
      ra2 == IF u.rs THEN ra % dr ELSE ra
      v == [ts |-> u.ts /\ ~sent, tb |-> IF u.ts THEN tb ELSE u.tb,
            tc |-> IF timed THEN u.tc ELSE ta2, to |-> IF timed THEN ta2 ELSE u.to,
            rs |-> (u.rs /\ ~recd) \/ start, rb |-> IF start THEN 0 ELSE IF u.rs THEN rb ELSE u.rb,
            rc |-> IF start THEN 0 ELSE IF timed THEN u.rc ELSE ra2,
            ro |-> IF start THEN 0 ELSE IF timed THEN ra2 ELSE u.ro,
            inp |-> IF start THEN Tail(u.inp) ELSE u.inp, cur |-> IF start THEN u.inp[1] ELSE u.cur,
            sb |-> u.sb, out |-> IF sent THEN Append(u.out, u.sb) ELSE u.out]
  IN [m2 EXCEPT !.u = [v EXCEPT !.tc = @ + 12, !.rc = @ + 12]]
\* a write of SBUF starts the transmitter; reads see the received byte
Send(m, m0, w) ==
  IF SFR(aSBUF) \notin w THEN m
  ELSE [Wr(m, SFR(aSBUF), S(m0, aSBUF)) EXCEPT
          !.u = [@ EXCEPT !.ts = TRUE, !.tb = 0, !.tc = 0, !.to = 0, !.sb = S(m, aSBUF)]]

\* level triggered external interrupts: the request follows the pin
Ext(m, i, p3) == IF Sb(m, aTCON, 2 * i) = 0 THEN PutB(m, aTCON, 2 * i + 1, 1 - Bit(p3, 2 + i)) ELSE m

\* n machine cycles; edges are used up by the first one
RECURSIVE Cycles(_, _, _, _)
Cycles(m, n, p3, e) ==
  IF n = 0 THEN m
  ELSE Cycles(TLCEval(Ext(Ext(Timer2(TLCEval(Serial(TLCEval(Timer1(TLCEval(Timer0(m, p3, e[1])), p3, e[2])))), e[3], e[4]), 0, p3), 1, p3)),
              n - 1, p3, <<0, 0, 0, 0>>)

\* interrupt sources in polling order: <<enable and priority bit, request, vector>>
Src == << 3, 11, 19, 27, 35, 43 >>
Req(m, i) ==
  CASE i = 1 -> Sb(m, aTCON, 1) = 1 [] i = 2 -> Sb(m, aTCON, 5) = 1
    [] i = 3 -> Sb(m, aTCON, 3) = 1 [] i = 4 -> Sb(m, aTCON, 7) = 1
    [] i = 5 -> S(m, aSCON) % 4 # 0 [] i = 6 -> Sb(m, aT2CON, 7) = 1 \/ (Sb(m, aT2CON, 6) = 1 /\ Mode2(m) # "updown")
Acked(m, i) ==       \* requests the hardware clears when the service starts
  CASE i = 1 -> PutB(m, aTCON, 1, 0) [] i = 2 -> PutB(m, aTCON, 5, 0)
    [] i = 3 -> PutB(m, aTCON, 3, 0) [] i = 4 -> PutB(m, aTCON, 7, 0) [] OTHER -> m
Prio(m, i) == Sb(m, aIP, i - 1)
Cand(m, lv) == {i \in 1 .. 6 : /\ Sb(m, aIE, 7) = 1 /\ Sb(m, aIE, i - 1) = 1 /\ Req(m, i)
                               /\ (lv = << >> \/ Prio(m, i) > lv[1])}
Pick(m, C) == CHOOSE i \in C : \A j \in C : Prio(m, i) > Prio(m, j) \/ (Prio(m, i) = Prio(m, j) /\ i <= j)

\* Reset: special function registers get their reset values (port latches ones, SP 7, others
\* zero), execution goes on at 0, no interrupt service and no transmission is in progress;
\* internal RAM and the outside world are left as they were (a byte on its way in is
\* received from its start again)
ResetSfr == [a \in {SFR(i) : i \in 128 .. 255} |->
               IF a \in {SFR(128), SFR(144), SFR(160), SFR(176)} THEN 255 ELSE IF a = SFR(129) THEN 7 ELSE 0]
ResetR(r) == [PC |-> 0, lv |-> << >>, e1 |-> r.pins[2], e3 |-> r.pins[4],
              u |-> [r.u EXCEPT !.ts = FALSE, !.tb = 0, !.tc = 0, !.to = 0, !.rs = FALSE, !.rb = 0, !.rc = 0, !.ro = 0,
                              !.inp = IF r.u.rs THEN <<r.u.cur>> \o @ ELSE @]] @@ r

Mcs51HwExec(rr, mm) ==
  LET rst == "rst" \in DOMAIN rr
      r == IF rst THEN TLCEval(ResetR(rr)) ELSE rr
      m0 == IF rst THEN TLCEval([mm EXCEPT !.o = ResetSfr @@ @]) ELSE mm
      pins == r.pins
      m1 == m0 @@ [p |-> pins, u |-> r.u]
      idle == Sb(m0, aPCON, 0) = 1
      op == Rd(m0, ROM(r.PC))
      x == IF idle THEN [r |-> [PC |-> r.PC], m |-> m1, t |-> 12] ELSE TLCEval(Mcs51Exec(r, m1))
      pa1 == pins[2] & S(m0, aP1)
      pb1 == pins[2] & S(x.m, aP1)
      pa3 == pins[4] & S(m0, aP3)
      pb3 == pins[4] & S(x.m, aP3)
      f3(i) == Fell(r.e3, pa3, i) + Fell(pa3, pb3, i)
      f1(i) == Fell(r.e1, pa1, i) + Fell(pa1, pb1, i)
      ed(m, i) == IF Sb(m, aTCON, 2 * i) = 1 /\ f3(2 + i) > 0 THEN PutB(m, aTCON, 2 * i + 1, 1) ELSE m
      wrote == {x.m.w[i] : i \in DOMAIN x.m.w}
      m2 == TLCEval(Send(ed(ed(x.m, 0), 1), m0, wrote))
      m3 == TLCEval(Cycles(m2, x.t \div 12, pb3, <<f3(4), f3(5), f1(0), f1(1)>>))
      hold == ~idle /\ (op = 50 \/ SFR(aIE) \in wrote \/ SFR(aIP) \in wrote)
      lv == IF ~idle /\ op = 50 /\ r.lv # << >> THEN Tail(r.lv) ELSE r.lv
      C == IF hold THEN {} ELSE Cand(m3, lv)
      i == Pick(m3, C)
      m4 == PutB(PushPC(Acked(m3, i), x.r.PC), aPCON, 0, 0)
      ports == LET l(k) == S(x.m, 128 + 16 * k) IN
               [L0 |-> l(0), L1 |-> l(1), L2 |-> l(2), L3 |-> l(3),
                V0 |-> l(0) & pins[1], V1 |-> l(1) & pins[2], V2 |-> l(2) & pins[3], V3 |-> l(3) & pins[4]]
      strip(m) == [b |-> m.b, o |-> m.o, w |-> m.w \o (IF rst THEN [k \in 1 .. 128 |-> SFR(127 + k)] ELSE << >>)]
      base(m) == [pins |-> pins, e1 |-> pb1, e3 |-> pb3, u |-> m.u, OUT |-> m.u.out] @@ ports
      m5 == TLCEval(Cycles(m4, 2, pb3, <<0, 0, 0, 0>>))
  IN IF C = {} THEN [r |-> [PC |-> x.r.PC, lv |-> lv] @@ base(m3), m |-> strip(m3), t |-> x.t, u |-> << >>]
     ELSE [r |-> [PC |-> Src[i], lv |-> <<Prio(m3, i)>> \o lv] @@ base(m5), m |-> strip(m5), t |-> x.t + 24, u |-> << >>]
=============================================================================
