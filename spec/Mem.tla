-------------------------------- MODULE Mem --------------------------------
(* The memory system: chips (arrays of cells), address spaces (ranges of
   addresses without storage of their own) and address decoders which map parts
   of a space to chip cells - directly, through a bank selector, or bit by bit.

   m.ch[c] = [w, v]            width in bits; v[i+1] is cell i
   m.as[s] = [st, n, w, dec]   first address, size, width, set of decoders
   A decoder covers the addresses lo .. hi of its space; skip is how far lo lies
   behind the address the decoder was created for.  Kinds:
     "chip"   address a is cell cb + skip + (a - lo) of chip
     "bank"   the same for the bank selected at present (cur; -1: none yet); banks
              is a function from bank numbers to <<chip, first cell>>
     "bit"    the n-th address (n = skip + a - lo) is bit n % bpc of cell
              cb + (n \div bpc) * dist of chip *)
EXTENDS Bits, FiniteSets, TLC

Mask(w) == IF w >= 31 THEN 2147483647 ELSE Pow2(w) - 1
Trunc(v, w) == IF w >= 31 THEN v ELSE v % Pow2(w)

ChipSize(m, c) == Len(m.ch[c].v)
Last(m, s) == m.as[s].st + m.as[s].n - 1
Valid(m, s, a) == a >= m.as[s].st /\ a <= Last(m, s)

None == <<"", -1, -1>>         \* chip, cell, bit (or -1)
CellOf(m, c, i, b) == IF c \in DOMAIN m.ch /\ i >= 0 /\ i < ChipSize(m, c) THEN <<c, i, b>> ELSE None

\* an address of a bit space without bit addressing is the lowest bit of the cell
Plain(m, s) == IF m.as[s].w = 1 THEN 0 ELSE -1
Target(m, s, d, a) ==
  CASE d.k = "chip" -> CellOf(m, d.chip, d.cb + d.skip + (a - d.lo), Plain(m, s))
    [] d.k = "bank" -> IF d.cur = -1 THEN None
                       ELSE CellOf(m, d.banks[d.cur][1], d.banks[d.cur][2] + d.skip + (a - d.lo), Plain(m, s))
    [] d.k = "bit"  -> LET n == d.skip + (a - d.lo)
                       IN CellOf(m, d.chip, d.cb + ((n \div d.bpc) * d.dist), n % d.bpc)

DecAt(m, s, a) == {d \in m.as[s].dec : d.lo <= a /\ a <= d.hi}
Map(m, s, a) == LET D == DecAt(m, s, a) IN IF D = {} THEN None ELSE Target(m, s, CHOOSE d \in D : TRUE, a)

\* value of address a of a space, or -1 where nothing answers
Get(m, s, a) ==
  LET t == Map(m, s, a)
  IN IF ~Valid(m, s, a) \/ t = None THEN -1
     ELSE LET v == m.ch[t[1]].v[t[2] + 1] IN IF t[3] >= 0 THEN Bit(v, t[3]) ELSE v

ChipPut(m, c, i, v) == [m EXCEPT !.ch[c].v[i + 1] = Trunc(v, m.ch[c].w)]

\* the banks controlled by cell a of space s follow its new value
Reselect(m, s, a) ==
  LET v == Get(m, s, a)
      upd(d) == IF d.k = "bank" /\ d.sel = s /\ d.saddr = a /\ v # -1
                THEN LET b == (v & d.mask) \div d.unit
                     IN IF b \in DOMAIN d.banks THEN [d EXCEPT !.cur = b] ELSE d
                ELSE d
      banks == {x \in DOMAIN m.as : \E d \in m.as[x].dec : d.k = "bank" /\ d.sel = s /\ d.saddr = a}
  IN IF banks = {} THEN m
     ELSE [m EXCEPT !.as = [x \in DOMAIN m.as |-> [m.as[x] EXCEPT !.dec = {upd(d) : d \in m.as[x].dec}]]]

\* a write through an address space; a value for an address nothing answers is lost
Put(m, s, a, v) ==
  LET t == Map(m, s, a)
  IN IF ~Valid(m, s, a) \/ t = None THEN m
     ELSE IF t[3] >= 0
          THEN Reselect([m EXCEPT !.ch[t[1]].v[t[2] + 1] = SetBit(@, t[3], I(v # 0))], s, a)
          ELSE Reselect(ChipPut(m, t[1], t[2], Trunc(v, m.as[s].w)), s, a)

RECURSIVE PutSeq(_, _, _, _)
PutSeq(m, s, a, vs) ==
  IF vs = << >> THEN m
  ELSE PutSeq(TLCEval(IF s \in DOMAIN m.as THEN Put(m, s, a, vs[1])
                      ELSE IF a >= 0 /\ a < ChipSize(m, s) THEN ChipPut(m, s, a, vs[1]) ELSE m),
              s, a + 1, Tail(vs))

GetAny(m, s, a) == IF s \in DOMAIN m.as THEN Get(m, s, a) ELSE m.ch[s].v[a + 1]
First(m, s) == IF s \in DOMAIN m.as THEN m.as[s].st ELSE 0
LastOf(m, s) == IF s \in DOMAIN m.as THEN Last(m, s) ELSE ChipSize(m, s) - 1

---------------------------------------------------------------------------
(* decoders: a new one takes its area away from the others *)
Cut(d, b, e) ==
  IF e < d.lo \/ b > d.hi THEN {d}
  ELSE (IF d.lo < b THEN {[d EXCEPT !.hi = b - 1]} ELSE {})
       \cup (IF d.hi > e THEN {[d EXCEPT !.lo = e + 1, !.skip = d.skip + (e + 1 - d.lo)]} ELSE {})

Cover(m, s, d) == [m EXCEPT !.as[s].dec = UNION {Cut(x, d.lo, d.hi) : x \in m.as[s].dec} \cup {d}]

D0 == [k |-> "chip", lo |-> 0, hi |-> 0, skip |-> 0, chip |-> "", cb |-> 0, bpc |-> 1, dist |-> 1,
       sel |-> "", saddr |-> 0, mask |-> 0, unit |-> 1, banks |-> << >>, cur |-> -1]

NewChip(m, c, w, v) == [m EXCEPT !.ch = (c :> [w |-> w, v |-> v]) @@ m.ch]
NewSpace(m, s, st, n, w) == [m EXCEPT !.as = (s :> [st |-> st, n |-> n, w |-> w, dec |-> {}]) @@ m.as]

DecoderOk(m, s, b, e, c, cb) ==
  /\ s \in DOMAIN m.as /\ c \in DOMAIN m.ch
  /\ b <= e /\ Valid(m, s, b) /\ Valid(m, s, e)
  /\ cb < ChipSize(m, c) /\ cb + (e - b) < ChipSize(m, c)
NewDecoder(m, s, b, e, c, cb) == Cover(m, s, [D0 EXCEPT !.lo = b, !.hi = e, !.chip = c, !.cb = cb])

RECURSIVE LowBit(_)
LowBit(x) == IF x % 2 = 1 THEN 1 ELSE 2 * LowBit(x \div 2)
NrBanks(mask) == IF mask = 0 THEN 1 ELSE (mask \div LowBit(mask)) + 1
BankerOk(m, sel, sa, s, b, e) == sel \in DOMAIN m.as /\ s \in DOMAIN m.as /\ Valid(m, sel, sa)
                                 /\ Valid(m, s, b) /\ Valid(m, s, e) /\ b <= e
NewBanker(m, sel, sa, mask, s, b, e) ==
  Cover(m, s, [D0 EXCEPT !.k = "bank", !.lo = b, !.hi = e, !.sel = sel, !.saddr = sa, !.mask = mask,
                         !.unit = IF mask = 0 THEN 1 ELSE LowBit(mask)])

BankDec(m, s, a) == CHOOSE d \in DecAt(m, s, a) : TRUE
BankOk(m, s, a, n, c, cb) ==
  /\ s \in DOMAIN m.as /\ c \in DOMAIN m.ch /\ Valid(m, s, a) /\ cb < ChipSize(m, c)
  /\ DecAt(m, s, a) # {}
  /\ BankDec(m, s, a).k = "bank"
  /\ n >= 0 /\ n < NrBanks(BankDec(m, s, a).mask)
\* (re)defines the storage of bank n; it is mapped at once if it is the selected one
AddBank(m, s, a, n, c, cb) ==
  LET d  == BankDec(m, s, a)
      v  == Get(m, d.sel, d.saddr)
      d1 == [d EXCEPT !.banks = (n :> <<c, cb - d.skip>>) @@ d.banks]
      d2 == IF v # -1 /\ (v & d.mask) \div d.unit = n THEN [d1 EXCEPT !.cur = n] ELSE d1
  IN [m EXCEPT !.as[s].dec = (@ \ {d}) \cup {d2}]

BanderOk(m, s, b, e, c, cb) ==
  s \in DOMAIN m.as /\ c \in DOMAIN m.ch /\ Valid(m, s, b) /\ Valid(m, s, e) /\ cb < ChipSize(m, c) /\ b <= e
NewBander(m, s, b, e, c, cb, bpc, dist) ==
  Cover(m, s, [D0 EXCEPT !.k = "bit", !.lo = b, !.hi = e, !.chip = c, !.cb = cb, !.bpc = bpc, !.dist = dist])

\* removing a chip removes every decoder that uses it
RemoveChip(m, c) ==
  LET uses(d) == d.chip = c \/ \E n \in DOMAIN d.banks : d.banks[n][1] = c
  IN [ch |-> [x \in DOMAIN m.ch \ {c} |-> m.ch[x]],
      as |-> [s \in DOMAIN m.as |-> [m.as[s] EXCEPT !.dec = {d \in m.as[s].dec : ~uses(d)}]]]

---------------------------------------------------------------------------
(* queries *)
\* value of a for searching; ASCII letters are equal when case does not matter
Fold(v, cs) == IF ~cs /\ v >= 97 /\ v <= 122 THEN v - 32 ELSE v
MatchAt(m, s, a, pat, cs) ==
  /\ a + Len(pat) - 1 <= LastOf(m, s)
  /\ \A i \in 1 .. Len(pat) : Fold(GetAny(m, s, a + i - 1), cs) = Fold(pat[i], cs)
Matches(m, s, pat, cs) == {a \in First(m, s) .. LastOf(m, s) : MatchAt(m, s, a, pat, cs)}

\* maximal areas <<first, last>> where every cell holds val
Areas(m, s, val) ==
  LET is(a) == a >= First(m, s) /\ a <= LastOf(m, s) /\ GetAny(m, s, a) = val
      F == {a \in First(m, s) .. LastOf(m, s) : is(a) /\ ~is(a - 1)}
      end(a) == CHOOSE e \in a .. LastOf(m, s) : is(e) /\ ~is(e + 1) /\ \A x \in a .. e : is(x)
  IN {<<a, end(a)>> : a \in F}

Decoded(m, s) == \A a \in First(m, s) .. LastOf(m, s) : GetAny(m, s, a) # -1
=============================================================================
