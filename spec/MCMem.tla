------------------------------- MODULE MCMem -------------------------------
(* Exhaustive check of the address decoding rules on a small machine: every
   sequence of decoder commands and writes up to Depth.  own[a] is the number of
   the last command that covered address a: the decoder that answers must be the
   one of that command, at the offset it was created with. *)
EXTENDS Mem

CONSTANT Depth
VARIABLES m, own, n, log
vars == <<m, own, n, log>>

A == 0 .. 5
S0 == [ch |-> [x |-> [w |-> 8, v |-> <<10, 11, 12, 13, 14, 15>>], y |-> [w |-> 8, v |-> <<20, 21, 22>>],
               z |-> [w |-> 8, v |-> <<0, 0>>]],
       as |-> [s |-> [st |-> 0, n |-> 6, w |-> 8, dec |-> {}],
               l |-> [st |-> 0, n |-> 2, w |-> 8, dec |-> {[D0 EXCEPT !.hi = 1, !.chip = "z"]}]]]
Init == m = S0 /\ own = [a \in A |-> 0] /\ n = 0 /\ log = << >>
Covered(b, e) == own' = [a \in A |-> IF b <= a /\ a <= e THEN n + 1 ELSE own[a]]
Dec == \E b \in A, e \in A, c \in {"x", "y"}, cb \in 0 .. 2 :
         /\ DecoderOk(m, "s", b, e, c, cb)
         /\ m' = NewDecoder(m, "s", b, e, c, cb) /\ Covered(b, e)
         /\ log' = Append(log, [k |-> "chip", lo |-> b, c |-> c, cb |-> cb])
Bank == \E b \in A, e \in A, sa \in 0 .. 1 :
         /\ BankerOk(m, "l", sa, "s", b, e)
         /\ m' = NewBanker(m, "l", sa, 2, "s", b, e) /\ Covered(b, e)
         /\ log' = Append(log, [k |-> "bank", lo |-> b, c |-> "", cb |-> sa])
Add == \E a \in A, k \in 0 .. 1, c \in {"x", "y"} :
         /\ BankOk(m, "s", a, k, c, 1)
         /\ m' = AddBank(m, "s", a, k, c, 1) /\ UNCHANGED own
         /\ log' = Append(log, [k |-> "add"])
Sel == \E a \in 0 .. 1, v \in {0, 1, 2} :
         /\ m' = Put(m, "l", a, v) /\ UNCHANGED own
         /\ log' = Append(log, [k |-> "sel"])
Wr == \E a \in A : m' = Put(m, "s", a, 7) /\ UNCHANGED own /\ log' = Append(log, [k |-> "wr", a |-> a])
Rm == /\ "y" \in DOMAIN m.ch
      /\ m' = RemoveChip(m, "y")
      /\ own' = [a \in A |-> IF DecAt(m', "s", a) = {} THEN 0 ELSE own[a]]
      /\ log' = Append(log, [k |-> "rm"])
Next == n < Depth /\ n' = n + 1 /\ (Dec \/ Bank \/ Add \/ Sel \/ Wr \/ Rm)
Spec == Init /\ [][Next]_vars

Disjoint == \A s \in DOMAIN m.as : \A a \in m.as[s].st .. Last(m, s) : Cardinality(DecAt(m, s, a)) <= 1
LastWins ==
  \A a \in A :
    IF own[a] = 0 THEN Map(m, "s", a) = None
    ELSE LET c == log[own[a]] IN
         /\ DecAt(m, "s", a) # {}
         /\ c.k = "chip" => Map(m, "s", a) = CellOf(m, c.c, c.cb + (a - c.lo), -1)
         /\ c.k = "bank" => BankDec(m, "s", a).k = "bank" /\ BankDec(m, "s", a).saddr = c.cb
\* a selected bank that has storage is the mapped one
Selected ==
  \A d \in m.as["s"].dec :
    d.k = "bank" =>
      LET v == Get(m, d.sel, d.saddr) IN (v \div d.unit) % 2 \in DOMAIN d.banks => d.cur = (v \div d.unit) % 2
\* a write is seen at the address, and at every other one mapped to the same cell, and nowhere else
WriteSeen ==
  \A a \in A : LET m1 == Put(m, "s", a, 99) IN
    \A b \in A : Get(m1, "s", b) = IF Map(m, "s", a) # None /\ Map(m, "s", b) = Map(m, "s", a) THEN 99 ELSE Get(m, "s", b)
View == <<m, own, n>>
=============================================================================
