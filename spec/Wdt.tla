-------------------------------- MODULE Wdt ---------------------------------
(* The one-time enabled watchdog of the 80C51Rx family (hardware manual, "Hardware Watchdog Timer"): it is off
   after reset; writing 1EH and then E1H to WDTRST, with no other write of it in between, turns it on or, when it
   is on, clears it.  It counts every machine cycle, in Idle mode too, but not in Power Down mode, and its
   overflow (16383 -> 16384) resets the device.  It can not be turned off but by a reset.

   State: w = count, -1 when off; last = the value written to WDTRST last, -1 if none since the reset;
   md = "run", "idle" or "pd"; pc; sp.  The program is NOPs, with single instructions put among them. *)
EXTENDS Integers, Sequences, TLC

Top == 16383
Off == -1
Fresh == [w |-> Off, last |-> -1, md |-> "run", pc |-> 0, sp |-> 7]

\* c machine cycles of one instruction
Count(d, c) == IF d.w = Off THEN d ELSE IF d.w + c > Top THEN Fresh ELSE [d EXCEPT !.w = @ + c]

\* n steps: NOPs, or cycles of Idle mode
RECURSIVE Nops(_, _)
Nops(d, n) ==
  IF n = 0 \/ d.md = "pd" THEN d
  ELSE LET left == IF d.w = Off THEN n ELSE Top - d.w
           move(k) == [d EXCEPT !.pc = IF d.md = "run" THEN (@ + k) % 65536 ELSE @, !.w = IF @ = Off THEN Off ELSE @ + k]
       IN IF n <= left THEN move(n) ELSE Nops(Fresh, n - left - 1)

Write(d, v) == [d EXCEPT !.w = IF v = 225 /\ d.last = 30 THEN 0 ELSE @, !.last = v]

\* an instruction of b bytes and c cycles at a; v: value written to WDTRST or -1; md: mode it selects
Ins(d, a, b, c, v, md) ==
  IF d.md # "run" THEN Nops(d, 1)
  ELSE LET d1 == [d EXCEPT !.pc = (a + b) % 65536]
           d2 == Count(IF v = -1 THEN d1 ELSE Write(d1, v), c)
       IN IF md # "run" /\ d2 # Fresh THEN [d2 EXCEPT !.md = md] ELSE d2

\* the watchdog is never past its end, and only a fed watchdog counts
Inv(d) == d.w \in -1 .. Top /\ (d.w >= 0 => d.last # -1)
=============================================================================
