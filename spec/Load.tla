-------------------------------- MODULE Load --------------------------------
(* Program files: what the records of a file put into which memory cells, and
   which records are valid (checksums).  A file is a sequence of records, a record
   is a sequence of bytes:
     hex   <<length, address high, low, type, data..., checksum>>
     s19   <<kind, count, address bytes..., data..., checksum>>, kind 0 .. 9
     omf   <<type, length low, high, data..., checksum>>
     p2h   <<value, address>>      asc   <<value>>
   Reading gives chunks <<first unit, data>>; a unit is a byte of the file image
   (hex, s19) or a whole memory cell (omf, p2h, asc).                          *)
EXTENDS Mem

RECURSIVE SumOf(_, _)
SumOf(q, n) == IF n = 0 THEN 0 ELSE SumOf(q, n - 1) + q[n]
Sub(q, a, b) == [i \in 1 .. (b - a + 1) |-> q[a + i - 1]]

\* intel hex: every record sums to zero; data (0), end (1), upper address (4); others are skipped
HexOk(r) == Len(r) = r[1] + 5 /\ SumOf(r, Len(r)) % 256 = 0
RECURSIVE HexChunks(_, _)
HexChunks(recs, base) ==
  IF recs = << >> THEN << >>
  ELSE LET r == recs[1]
           n == r[1]
           rest == Tail(recs)
       IN IF Len(r) # n + 5 THEN << >>                         \* cut off
          ELSE IF ~HexOk(r) THEN HexChunks(rest, base)
          ELSE IF r[4] = 1 THEN << >>
          ELSE IF r[4] = 4 THEN HexChunks(rest, (r[5] * 256 + r[6]) * 65536)
          ELSE IF r[4] = 0 /\ n > 0 THEN <<<<base + r[2] * 256 + r[3], Sub(r, 5, 4 + n)>>>> \o HexChunks(rest, base)
          ELSE HexChunks(rest, base)

\* Motorola: count, address, data and checksum sum to 255
S19Abytes(k) == IF k = 1 THEN 2 ELSE IF k = 2 THEN 3 ELSE IF k = 3 THEN 4 ELSE 0
RECURSIVE BigEndian(_, _)
BigEndian(q, n) == IF n = 0 THEN 0 ELSE 256 * BigEndian(q, n - 1) + q[n]
RECURSIVE S19Chunks(_)
S19Chunks(recs) ==
  IF recs = << >> THEN << >>
  ELSE LET r == recs[1]
           ab == S19Abytes(r[1])
           ok == Len(r) = r[2] + 2 /\ (SumOf(r, Len(r)) - r[1]) % 256 = 255
           nd == r[2] - ab - 1
       IN IF ok /\ ab > 0 /\ nd > 0
          THEN <<<<BigEndian(Sub(r, 3, 2 + ab), ab), Sub(r, 3 + ab, 2 + ab + nd)>>>> \o S19Chunks(Tail(recs))
          ELSE S19Chunks(Tail(recs))

\* OMF: content records have type 6: segment, offset, data
RECURSIVE OmfChunks(_)
OmfChunks(recs) ==
  IF recs = << >> THEN << >>
  ELSE LET r == recs[1]
           n == r[2] + 256 * r[3]              \* with the checksum
       IN IF r[1] = 6 /\ n > 4
          THEN <<<<r[5] + 256 * r[6], Sub(r, 7, 2 + n)>>>> \o OmfChunks(Tail(recs))
          ELSE OmfChunks(Tail(recs))

P2hChunks(recs) == [i \in DOMAIN recs |-> <<recs[i][2], <<recs[i][1]>>>>]
AscChunks(recs) == [i \in DOMAIN recs |-> <<i - 1, recs[i]>>]

Chunks(fmt, recs) ==
  CASE fmt = "hex" -> HexChunks(recs, 0) [] fmt = "s19" -> S19Chunks(recs) [] fmt = "omf" -> OmfChunks(recs)
    [] fmt = "p2h" -> P2hChunks(recs)    [] fmt = "asc" -> AscChunks(recs)

---------------------------------------------------------------------------
Width(m, s) == IF s \in DOMAIN m.as THEN m.as[s].w ELSE m.ch[s].w
Units(m, s, fmt) == IF fmt \in {"hex", "s19"} THEN (Width(m, s) + 7) \div 8 ELSE 1     \* units of a cell

\* a file cell a of memory s designates: <<"as"|"ch", name, address>> or << >> for none.
\* Addresses behind the end of a banked space select the banks one after the other.
Place(m, s, a) ==
  IF s \in DOMAIN m.ch THEN (IF a >= 0 /\ a < ChipSize(m, s) THEN <<"ch", s, a>> ELSE << >>)
  ELSE IF Valid(m, s, a) THEN <<"as", s, a>>
  ELSE IF a < 0 THEN << >>
  ELSE LET b == a \div m.as[s].n
           c == a % m.as[s].n
           D == DecAt(m, s, c)
           d == CHOOSE x \in D : TRUE
       IN IF D = {} \/ ~Valid(m, s, c) THEN << >>
          ELSE IF d.k # "bank" \/ b \notin DOMAIN d.banks THEN << >>
          ELSE LET t == CellOf(m, d.banks[b][1], d.banks[b][2] + d.skip + (c - d.lo), -1)
               IN IF t = None THEN << >> ELSE <<"ch", t[1], t[2]>>

PlaceGet(m, p) == IF p = << >> THEN -1 ELSE IF p[1] = "ch" THEN m.ch[p[2]].v[p[3] + 1] ELSE Get(m, p[2], p[3])
PlacePut(m, p, v) ==
  IF p = << >> THEN m
  ELSE IF p[1] = "ch" THEN ChipPut(m, p[2], p[3], v)
  ELSE LET t == Map(m, p[2], p[3]) IN IF t = None THEN m ELSE ChipPut(m, t[1], t[2], Trunc(v, m.as[p[2]].w))

\* content of file cell c when the bytes of a chunk are put over old
RECURSIVE Merge(_, _, _, _)
Merge(old, bytes, i, f) ==      \* bytes of the cell i .. bytes-1; f(i) = -1: not in the chunk
  IF i = bytes THEN old
  ELSE Merge(IF f[i] = -1 THEN old
             ELSE old - (((old \div Pow2(8 * i)) % 256) * Pow2(8 * i)) + (f[i] * Pow2(8 * i)), bytes, i + 1, f)

CellVal(m, s, u, ch, c, off) ==
  LET f == [i \in 0 .. (u - 1) |-> LET x == c * u + i - ch[1] IN IF x >= 0 /\ x < Len(ch[2]) THEN ch[2][x + 1] ELSE -1]
      old == PlaceGet(m, Place(m, s, c + off))
  IN IF u = 1 THEN f[0] ELSE Merge(IF old = -1 THEN 0 ELSE old, u, 0, f)

InRange(c, lo, hi) == c >= lo /\ (hi = -1 \/ c <= hi)

RECURSIVE LoadCells(_, _, _, _, _, _, _, _)
LoadCells(m, s, u, ch, c, last, off, rng) ==
  IF c > last THEN m
  ELSE LoadCells(TLCEval(IF InRange(c, rng[1], rng[2])
                         THEN PlacePut(m, Place(m, s, c + off), CellVal(m, s, u, ch, c, off)) ELSE m),
                 s, u, ch, c + 1, last, off, rng)
RECURSIVE LoadChunks(_, _, _, _, _, _)
LoadChunks(m, s, u, chs, off, rng) ==
  IF chs = << >> THEN m
  ELSE LoadChunks(TLCEval(LoadCells(m, s, u, chs[1], chs[1][1] \div u, (chs[1][1] + Len(chs[1][2]) - 1) \div u, off, rng)),
                  s, u, Tail(chs), off, rng)

\* the file loaded into memory s, addresses lo .. hi of the file, moved by off
LoadFile(m, s, fmt, recs, off, rng) == LoadChunks(m, s, Units(m, s, fmt), TLCEval(Chunks(fmt, recs)), off, rng)

\* differences: <<address, value in file, value in memory>>, in the order of the file
Differences(m, s, fmt, recs, off, rng) ==
  LET u == Units(m, s, fmt)
      of(ch) == LET c0 == ch[1] \div u
                    n  == ((ch[1] + Len(ch[2]) - 1) \div u) - c0 + 1
                    t(i) == <<c0 + i - 1 + off, CellVal(m, s, u, ch, c0 + i - 1, off), PlaceGet(m, Place(m, s, c0 + i - 1 + off))>>
                    all == [i \in 1 .. n |-> IF InRange(c0 + i - 1, rng[1], rng[2]) THEN t(i) ELSE <<-1, -1, -1>>]
                IN SelectSeq(all, LAMBDA x : x[3] # -1 /\ x[2] # x[3])
      RECURSIVE cat(_)
      cat(q) == IF q = << >> THEN << >> ELSE of(q[1]) \o cat(Tail(q))
  IN cat(Chunks(fmt, recs))

---------------------------------------------------------------------------
(* dumps *)
ByteOf(v, i) == (v \div Pow2(8 * i)) % 256
\* hex records of cells a .. e: valid, ended by the end record, and telling every byte once, in order
RECURSIVE Flat(_)
Flat(chs) == IF chs = << >> THEN << >>
             ELSE [i \in 1 .. Len(chs[1][2]) |-> <<chs[1][1] + i - 1, chs[1][2][i]>>] \o Flat(Tail(chs))
DumpHexOk(m, s, a, e, recs) ==
  LET u == Units(m, s, "hex")
      f == Flat(HexChunks(recs, 0))
  IN /\ recs # << >> /\ recs[Len(recs)] = <<0, 0, 0, 1, 255>>
     /\ \A i \in DOMAIN recs : HexOk(recs[i]) /\ (recs[i][4] = 1 <=> i = Len(recs))
     /\ Len(f) = (e - a + 1) * u
     /\ \A i \in DOMAIN f :
          LET c == a + ((i - 1) \div u)
              v == GetAny(m, s, c)
          IN f[i][1] = (a * u) + i - 1 /\ (v = -1 \/ f[i][2] = ByteOf(v, (i - 1) % u))

\* a string: cells up to the first zero, special characters escaped
Esc(c) ==
  CASE c = 39 -> <<92, 39>> [] c = 34 -> <<92, 34>> [] c = 63 -> <<92, 63>> [] c = 92 -> <<92, 92>>
    [] c = 7  -> <<92, 97>> [] c = 8  -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
    [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 11 -> <<92, 118>>
    [] c >= 32 /\ c < 127 /\ c \notin {39, 34, 63, 92} -> <<c>>
    [] OTHER -> <<92, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
RECURSIVE StrAt(_, _, _)
StrAt(m, s, a) == IF a > LastOf(m, s) THEN << >>
                  ELSE LET v == GetAny(m, s, a) IN IF v = 0 THEN << >> ELSE Esc(v) \o StrAt(m, s, a + 1)
=============================================================================
