------------------------------- MODULE TrExpr -------------------------------
(* Trace validation of expressions.  Events:
   init   cells, widths, aliases, registers
   var    n, sp, a, hi, lo        new or replaced variable      rmvar  n
   opt    f                       default format
   expr   list of [t, f]: tokens and formats (<<>>: default format); ans: printed lines, err: number of errors reported
   bad    not an expression: err # 0
   o      cells after the event *)
EXTENDS Expr, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, m, bad
vars == <<s, l, m, bad>>
Init == /\ s \in 1 .. Len(Sessions) /\ l = 1 /\ bad = << >> /\ m = << >>

Tokens(q) == [i \in DOMAIN q |-> IF q[i][1] = "num" THEN [s |-> "num", v |-> Digits(q[i][3], q[i][2], 1, 0)]
                                 ELSE IF q[i][1] \in {"mem", "id"} THEN [s |-> q[i][1], v |-> q[i][2]]
                                 ELSE [s |-> q[i][1], v |-> 0]]
RECURSIVE Run(_, _, _)
\* <<state, lines, errors>> of a list of expressions
Run(q, i, r) ==
  IF i > Len(q) THEN r
  ELSE LET x == TLCEval(Eval(TLCEval(Tokens(q[i].t)), r[1]))
       IN Run(q, i + 1, TLCEval(<<x.s, r[2] \o Lines(IF q[i].f = << >> THEN r[1].fmt ELSE q[i].f, x.v), r[3] + I(x.e)>>))

\* the cells of a space are listed at ascending addresses without gaps
Cont(o) == [sp \in DOMAIN o |-> LET q == o[sp] b == q[1][1] IN TLCEval([a \in b .. (b + Len(q) - 1) |-> q[a - b + 1][2]])]
Rec(c) == [sp |-> c.sp, a |-> c.a, hi |-> c.hi, lo |-> c.lo, reg |-> FALSE]
Effect(c) ==
  CASE c.k = "init" -> <<[c |-> Cont(c.o), w |-> c.w, al |-> c.al, fmt |-> << >>,
                          v |-> [n \in DOMAIN c.regs |-> [sp |-> n, a |-> 0, hi |-> -1, lo |-> -1, reg |-> TRUE]]], << >>, 0>>
    [] c.k = "var" -> <<[m EXCEPT !.v = (c.n :> Rec(c)) @@ @], << >>, 0>>
    [] c.k = "rmvar" -> <<[m EXCEPT !.v = [n \in DOMAIN @ \ {c.n} |-> @[n]]], << >>, 0>>
    [] c.k = "opt" -> <<[m EXCEPT !.fmt = c.f], << >>, 0>>
    [] c.k = "expr" -> Run(c.e, 1, <<m, << >>, 0>>)
    [] c.k = "bad" -> <<m, c.ans, IF c.err = 0 THEN 1 ELSE c.err>>

Step(c) ==
  LET r == TLCEval(Effect(c))
      o == Cont(c.o)
      dd == UNION {{<<sp, a, r[1].c[sp][a], o[sp][a]>> : a \in {y \in DOMAIN o[sp] : r[1].c[sp][y] # o[sp][y]}} : sp \in DOMAIN o}
  IN /\ m' = r[1]
     /\ bad' = IF c.ans = r[2] /\ c.err = r[3] /\ dd = {} THEN << >>
               ELSE <<[session |-> s, case |-> l, expected |-> r[2], observed |-> c.ans, errors |-> <<r[3], c.err>>, cells |-> dd]>>

Next == /\ bad = << >> /\ l <= Len(Sessions[s]) /\ l' = l + 1 /\ s' = s /\ Step(Sessions[s][l])
Spec == Init /\ [][Next]_vars
TView == <<s, l, bad>>
Accepted == bad = << >>
=============================================================================
