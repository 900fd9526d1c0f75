------------------------------- MODULE TrMem -------------------------------
(* Trace validation of memory command histories.  Every event is a console
   command with its arguments; ok tells whether it was accepted; o is the content
   of every space and chip after it. *)
EXTENDS Load, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >>
        /\ m = [ch |-> [x \in {} |-> 0], as |-> [x \in {} |-> 0]]

SetOf(q) == {q[i] : i \in DOMAIN q}
\* <<accepted, new state>>
Cmd(c) ==
  CASE c.k = "pre"      -> <<TRUE, NewDecoder(NewSpace(NewChip(m, c.c, c.w, c.o[c.c]), c.s, 0, c.n, c.w), c.s, 0, c.n - 1, c.c, 0)>>
    [] c.k = "mkchip"   -> <<TRUE, NewChip(m, c.c, c.w, c.o[c.c])>>
    [] c.k = "mkspace"  -> <<TRUE, NewSpace(m, c.s, c.st, c.n, c.w)>>
    [] c.k = "mkdec"    -> IF DecoderOk(m, c.s, c.b, c.e, c.c, c.cb)
                           THEN <<TRUE, NewDecoder(m, c.s, c.b, c.e, c.c, c.cb)>> ELSE <<FALSE, m>>
    [] c.k = "mkbanker" -> IF BankerOk(m, c.sel, c.sa, c.s, c.b, c.e)
                           THEN <<TRUE, NewBanker(m, c.sel, c.sa, c.mask, c.s, c.b, c.e)>> ELSE <<FALSE, m>>
    [] c.k = "mkbank"   -> IF BankOk(m, c.s, c.b, c.n, c.c, c.cb)
                           THEN <<TRUE, AddBank(m, c.s, c.b, c.n, c.c, c.cb)>> ELSE <<FALSE, m>>
    [] c.k = "mkbander" -> IF BanderOk(m, c.s, c.b, c.e, c.c, c.cb)
                           THEN <<TRUE, NewBander(m, c.s, c.b, c.e, c.c, c.cb, c.bpc, c.dist)>> ELSE <<FALSE, m>>
    [] c.k = "rmchip"   -> IF c.c \in DOMAIN m.ch THEN <<TRUE, RemoveChip(m, c.c)>> ELSE <<FALSE, m>>
    [] c.k = "set"      -> <<TRUE, IF c.a < First(m, c.s) THEN m ELSE PutSeq(m, c.s, c.a, c.v)>>   \* refused
    [] c.k = "fill"     -> <<TRUE, PutSeq(m, c.s, c.a, [i \in 1 .. (c.e - c.a + 1) |-> c.v])>>
    [] c.k = "load"     -> <<TRUE, LoadFile(m, c.s, c.fmt, c.recs, c.off, c.rng)>>
    [] OTHER            -> <<TRUE, m>>

\* what a query answered, against the state it was asked in
Answer(c) ==
  CASE c.k \in {"where", "hole"} /\ (c.s \notin DOMAIN m.as \cup DOMAIN m.ch) -> << >>
    [] c.k \in {"where", "hole"} /\ ~Decoded(m, c.s) -> << >>
    [] c.k = "where" -> LET e == Matches(m, c.s, c.p, c.cs) IN
                        IF SetOf(c.ans) = e /\ Len(c.ans) = Cardinality(e) THEN << >> ELSE <<"matches", e, c.ans>>
    [] c.k = "hole"  -> LET e == {<<x[1], x[2] - x[1]>> : x \in {y \in Areas(m, c.s, c.v) : y[2] - y[1] >= c.n}} IN
                        IF SetOf(c.ans) = e /\ Len(c.ans) = Cardinality(e) THEN << >> ELSE <<"areas", e, c.ans>>
    [] c.k = "dump"  -> LET lo == IF c.a < First(m, c.s) THEN First(m, c.s) ELSE c.a
                            hi == IF c.e > LastOf(m, c.s) THEN LastOf(m, c.s) ELSE c.e
                            n  == IF hi < lo THEN 0 ELSE hi - lo + 1
                        IN IF /\ Len(c.ans) = n
                              /\ \A i \in 1 .. n : /\ c.ans[i][1] = lo + i - 1
                                                   /\ GetAny(m, c.s, lo + i - 1) \in {-1, c.ans[i][2]}
                           THEN << >> ELSE <<"dump", lo, hi, [a \in lo .. hi |-> GetAny(m, c.s, a)], c.ans>>
    [] c.k = "check" -> LET e == Differences(m, c.s, c.fmt, c.recs, c.off, c.rng)
                            o == SelectSeq(c.ans, LAMBDA x : PlaceGet(m, Place(m, c.s, x[1])) # -1)
                        IN IF e = o THEN << >> ELSE <<"differences", e, o>>
    [] c.k = "dumpi" -> IF DumpHexOk(m, c.s, c.a, c.e, c.recs) THEN << >>
                        ELSE <<"hex dump", [a \in c.a .. c.e |-> GetAny(m, c.s, a)], c.recs>>
    [] c.k = "dumps" -> IF \E a \in c.a .. LastOf(m, c.s) : GetAny(m, c.s, a) = -1 THEN << >>
                        ELSE IF StrAt(m, c.s, c.a) = c.ans THEN << >> ELSE <<"string", StrAt(m, c.s, c.a), c.ans>>
    [] c.k = "cont"  -> IF c.ans # << >> /\ c.ans[1][1] = c.a
                           /\ \A i \in DOMAIN c.ans : c.ans[i][1] = c.a + i - 1 /\ GetAny(m, c.s, c.ans[i][1]) \in {-1, c.ans[i][2]}
                        THEN << >> ELSE <<"continued dump", c.a, c.ans>>
    [] c.k = "get"   -> IF GetAny(m, c.s, c.a) \in {-1, c.ans} THEN << >> ELSE <<"value", GetAny(m, c.s, c.a), c.ans>>
    [] c.k = "cell"  -> LET t == Map(m, c.s, c.a) IN
                        IF (t = None /\ c.chip = "") \/ (t # None /\ t[1] = c.chip /\ t[2] = c.i) THEN << >>
                        ELSE <<"cell", t, c.chip, c.i>>
    [] OTHER -> << >>

Diff(x, c) ==       \* cells that differ from what was seen
  UNION {{<<nm, First(x, nm) + i - 1, GetAny(x, nm, First(x, nm) + i - 1), c.o[nm][i]>> :
            i \in {j \in DOMAIN c.o[nm] : GetAny(x, nm, First(x, nm) + j - 1) \notin {-1, c.o[nm][j]}}} : nm \in DOMAIN c.o}

Step(c) ==
  LET r == TLCEval(Cmd(c))
      a == Answer(c)
      d == Diff(r[2], c)
      okb == c.ok # r[1]
  IN /\ m' = r[2]
     /\ bad' = IF ~okb /\ a = << >> /\ d = {} /\ DOMAIN c.o = DOMAIN r[2].ch \cup DOMAIN r[2].as THEN << >>
               ELSE << [session |-> s, case |-> l, accepted |-> IF okb THEN <<"observed", c.ok, "expected", r[1]>> ELSE << >>,
                        answer |-> a, cells |-> d] >>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s
        /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
