------------------------------- MODULE Names --------------------------------
(* Names of memory cells and of bits in cells (commands var, rmvar) and what the
   console shows and changes through them.

   m.mem  space -> address -> value     m.w  space -> bits of a cell
   m.v    name -> [sp, a, hi, lo]; hi = lo = -1: the whole cell                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
\* values stay below 2^30
Field(x, hi, lo) == IF hi - lo >= 30 THEN x \div P2(lo) ELSE (x \div P2(lo)) % P2(hi - lo + 1)
Put(x, hi, lo, v) == x - Field(x, hi, lo) * P2(lo) + (v % P2(hi - lo + 1)) * P2(lo)
Cut(m, sp, v) == IF m.w[sp] >= 30 THEN v ELSE v % P2(m.w[sp])

Exists(m, n) == n \in DOMAIN m.v
Cell(m, sp, a) == m.mem[sp][a]
Store(m, sp, a, v) == [m EXCEPT !.mem[sp][a] = v]
Valid(m, sp, a) == a \in DOMAIN m.mem[sp]
Value(m, d) == IF d.hi < 0 THEN Cell(m, d.sp, d.a) ELSE Field(Cell(m, d.sp, d.a), d.hi, d.lo)
Assign(m, d, v) == Store(m, d.sp, d.a, IF d.hi < 0 THEN Cut(m, d.sp, v) ELSE Put(Cell(m, d.sp, d.a), d.hi, d.lo, v))

\* a definition replaces an older one of the same name
Name(m, n, d) == [m EXCEPT !.v = [k \in DOMAIN @ \cup {n} |-> IF k = n THEN d ELSE @[k]]]
Norm(sp, a, x, y) == [sp |-> sp, a |-> a, hi |-> IF x >= y THEN x ELSE y, lo |-> IF x >= y THEN y ELSE x]
Define(m, n, d) ==
  IF ~Valid(m, d.sp, d.a) THEN <<m, "address">>
  ELSE IF d.hi > 31 THEN <<m, "bits">>
  ELSE <<Name(m, n, d), "">>
\* without a location: the first cell of "variables" that has no name
Free(m) == {a \in DOMAIN m.mem["variables"] : \A n \in DOMAIN m.v : ~(m.v[n].sp = "variables" /\ m.v[n].a = a)}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Remove(m, n) == [m EXCEPT !.v = [k \in DOMAIN @ \ {n} |-> @[k]]]

\* ------------------------------------------------------------- dumps
At(m, sp, a) == {n \in DOMAIN m.v : m.v[n].sp = sp /\ m.v[n].a = a}
\* a cell: each of its names with the bits it names, and the whole cell if no name shows it
DumpCell(m, sp, a) ==
  LET x == Cell(m, sp, a)
      top == m.w[sp] - 1
      hi(n) == IF m.v[n].hi < 0 THEN top ELSE m.v[n].hi
      lo(n) == IF m.v[n].hi < 0 THEN 0 ELSE m.v[n].lo
      S == {<<a, n, hi(n), lo(n), Field(x, hi(n), lo(n))>> : n \in At(m, sp, a)}
  IN S \cup (IF \E n \in At(m, sp, a) : hi(n) = top /\ lo(n) = 0 THEN {} ELSE {<<a, "", top, 0, x>>})
Dump(m, sp, lo, hi) == UNION {DumpCell(m, sp, a) : a \in {x \in lo .. hi : Valid(m, sp, x)}}
\* some bits of a cell: names of bits among them; a name of the cell names these bits
DumpBits(m, d) ==
  LET x == Cell(m, d.sp, d.a)
      N == {n \in At(m, d.sp, d.a) : m.v[n].hi < 0 \/ (m.v[n].hi <= d.hi /\ m.v[n].lo >= d.lo)}
      hi(n) == IF m.v[n].hi < 0 THEN d.hi ELSE m.v[n].hi
      lo(n) == IF m.v[n].hi < 0 THEN d.lo ELSE m.v[n].lo
      S == {<<d.a, n, hi(n), lo(n), Field(x, hi(n), lo(n))>> : n \in N}
  IN S \cup (IF \E n \in N : hi(n) = d.hi /\ lo(n) = d.lo THEN {} ELSE {<<d.a, "", d.hi, d.lo, Field(x, d.hi, d.lo)>>})
Info(m, N) == {<<n, m.v[n].sp, m.v[n].a, m.v[n].hi, m.v[n].lo, Value(m, m.v[n])>> : n \in N}

RECURSIVE StoreAll(_, _, _, _)
StoreAll(m, sp, a, q) == IF q = << >> \/ ~Valid(m, sp, a) THEN m
                         ELSE StoreAll(TLCEval(Store(m, sp, a, Cut(m, sp, q[1]))), sp, a + 1, Tail(q))
FillAll(m, sp, lo, hi, v) == [m EXCEPT !.mem[sp] = [a \in DOMAIN @ |-> IF a >= lo /\ a <= hi THEN Cut(m, sp, v) ELSE @[a]]]

\* ------------------------------------------------------------- commands
\* a place: a name or [sp, a, hi, lo]
Place(m, p) == IF "n" \in DOMAIN p THEN m.v[p.n] ELSE Norm(p.sp, p.a, p.hi, p.lo)
\* Do(m, c) = << state, answer >>
Do(m, c) ==
  CASE c.k = "var" ->
         IF c.invalid THEN <<m, "name">>       \* not a name
         ELSE IF "p" \notin DOMAIN c
         THEN <<Name(m, c.n, [sp |-> "variables", a |-> Min(Free(m)), hi |-> -1, lo |-> -1]), "">>
         ELSE Define(m, c.n, Place(m, c.p))
    [] c.k = "rmvar" -> <<Remove(m, c.n), "">>
    [] c.k = "expr"  -> <<m, Value(m, Place(m, c.p))>>
    [] c.k = "let"   -> <<Assign(m, Place(m, c.p), c.x), "">>
    [] c.k = "setn"  -> LET d == Place(m, c.p) m1 == TLCEval(Assign(m, d, c.x[1]))       \* bits
                        IN <<m1, DumpBits(m1, d)>>
    [] c.k = "set"   -> LET d == Place(m, c.p) m1 == TLCEval(StoreAll(m, d.sp, d.a, c.x))
                        IN <<m1, Dump(m1, d.sp, d.a, d.a + Len(c.x) - 1)>>
    [] c.k = "fill"  -> LET d == Place(m, c.p) e == Place(m, c.e)
                        IN <<FillAll(m, d.sp, d.a, e.a, c.x), "">>
    [] c.k = "dump"  -> LET d == Place(m, c.p) e == Place(m, c.e) IN <<m, Dump(m, d.sp, d.a, e.a)>>
    [] c.k = "dumpb" -> <<m, DumpBits(m, Place(m, c.p))>>
    [] c.k = "info"  -> <<m, Info(m, IF c.n = "" THEN DOMAIN m.v ELSE {c.n} \cap DOMAIN m.v)>>
    [] c.k = "pc"    -> <<m, Place(m, c.p).a>>
=============================================================================
