-------------------------------- MODULE Expr --------------------------------
(* Expressions of the command console: C operators with C precedence and 32 bit
   results, over numbers, memory cells, registers, single bits and bit fields.

   An expression is a sequence of tokens [s |-> symbol, v |-> value]; s is "num",
   "mem" (v the name of a space), "id" (v the name of a variable) or an operator.
   State: c[sp][a] value of a cell, w[sp] width of the cells of sp,
          v[name] = [sp, a, hi, lo] (hi = -1: whole cell) *)
EXTENDS Bits

Sym(t, i) == IF i <= Len(t) THEN t[i].s ELSE "end"

\* value of a literal: digits in a base
RECURSIVE Digits(_, _, _, _)
Digits(d, b, i, a) == IF i > Len(d) THEN a ELSE Digits(d, b, i + 1, TLCEval(a * b + d[i]))

\* two's complement operations on 32 bit integers
Hi16(a) == (a \div 65536) % 65536
Join(h, l) == (S16(h) * 65536) + l
BAnd(a, b) == Join(Hi16(a) & Hi16(b), (a % 65536) & (b % 65536))
BOr(a, b) == Join(Hi16(a) | Hi16(b), (a % 65536) | (b % 65536))
BXor(a, b) == Join(Hi16(a) ^^ Hi16(b), (a % 65536) ^^ (b % 65536))
Abs(a) == IF a < 0 THEN -a ELSE a
DivT(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
ModT(a, b) == a - (b * DivT(a, b))
Op(o, a, b) ==
  CASE o = "||" -> I(a # 0 \/ b # 0) [] o = "&&" -> I(a # 0 /\ b # 0)
    [] o = "|" -> BOr(a, b) [] o = "^" -> BXor(a, b) [] o = "&" -> BAnd(a, b)
    [] o = "==" -> I(a = b) [] o = "!=" -> I(a # b)
    [] o = "<" -> I(a < b) [] o = ">" -> I(a > b) [] o = "<=" -> I(a <= b) [] o = ">=" -> I(a >= b)
    [] o = "<<" -> a * Pow2(b) [] o = ">>" -> a \div Pow2(b)
    [] o = "+" -> a + b [] o = "-" -> a - b
    [] o = "*" -> a * b [] o = "/" -> DivT(a, b) [] o = "%" -> ModT(a, b)

Prec == [o \in {"||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"} |->
           CASE o = "||" -> 1 [] o = "&&" -> 2 [] o = "|" -> 3 [] o = "^" -> 4 [] o = "&" -> 5 [] o \in {"==", "!="} -> 6
             [] o \in {"<", ">", "<=", ">="} -> 7 [] o \in {"<<", ">>"} -> 8 [] o \in {"+", "-"} -> 9 [] OTHER -> 10]
AsgOp == [x \in {"*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|="} |->
            CASE x = "*=" -> "*" [] x = "/=" -> "/" [] x = "%=" -> "%" [] x = "+=" -> "+" [] x = "-=" -> "-"
              [] x = "<<=" -> "<<" [] x = ">>=" -> ">>" [] x = "&=" -> "&" [] x = "^=" -> "^" [] x = "|=" -> "|"]

\* ---- locations
Get(s, l) == LET x == s.c[l.sp][l.a]
             IN IF l.hi < 0 THEN x ELSE (x \div Pow2(l.lo)) % Pow2(l.hi - l.lo + 1)
Put(s, l, v) ==
  LET x == s.c[l.sp][l.a]
      n == l.hi - l.lo + 1
      f == IF n = 1 THEN I(v # 0) ELSE v % Pow2(n)      \* a bit is set by any non-zero value
      y == IF l.hi < 0 THEN v % Pow2(s.w[l.sp])
           ELSE ((x - ((x \div Pow2(l.lo)) % Pow2(n)) * Pow2(l.lo)) + (f * Pow2(l.lo))) % Pow2(s.w[l.sp])
  IN [s EXCEPT !.c[l.sp][l.a] = y]
\* bit addressable cells of the 8051
BitAddr(l) == IF l.sp = "iram" /\ l.hi = l.lo /\ l.a \in 32 .. 47 THEN ((l.a - 32) * 8) + l.lo ELSE -1

\* ---- evaluation from token i; e: the expression has no value (division by zero)
Res(v, i, s) == [v |-> v, i |-> i, s |-> s, e |-> FALSE]
Err(r) == [r EXCEPT !.e = TRUE, !.v = 0]
IsLoc(t, i) == Sym(t, i) \in {"mem", "id"}

RECURSIVE Expr(_, _, _), ExprLoop(_, _), Asgn(_, _, _), Cond(_, _, _, _), Bin(_, _, _, _, _), BinLoop(_, _, _), Unary(_, _, _, _), Loc(_, _, _)

Expr(t, i, s) == ExprLoop(t, TLCEval(Asgn(t, i, s)))
ExprLoop(t, r) == IF r.e \/ Sym(t, r.i) # "," THEN r ELSE ExprLoop(t, TLCEval(Asgn(t, r.i + 1, r.s)))

Loc(t, i, s) ==      \* location, position behind it
  LET base == TLCEval(IF t[i].s = "id"
              THEN LET x == s.v[t[i].v] IN [sp |-> x.sp, a |-> x.a, hi |-> x.hi, lo |-> x.lo, i |-> i + 1, s |-> s, e |-> FALSE, reg |-> x.reg]
              ELSE LET r == TLCEval(Expr(t, i + 2, s))
                   IN [sp |-> s.al[t[i].v], a |-> r.v, hi |-> -1, lo |-> -1, i |-> r.i + 1, s |-> r.s, e |-> r.e, reg |-> FALSE])
      x == Sym(t, base.i)
  IN IF base.e \/ base.hi >= 0 \/ base.reg THEN base
     ELSE IF x = "." THEN LET b == TLCEval(Expr(t, base.i + 1, base.s))
                          IN [base EXCEPT !.hi = b.v, !.lo = b.v, !.i = b.i, !.s = b.s, !.e = b.e]
     ELSE IF x = "[" THEN LET p == TLCEval(Expr(t, base.i + 1, base.s))
                              q == TLCEval(Expr(t, p.i + 1, p.s))
                          IN [base EXCEPT !.hi = IF p.v < q.v THEN q.v ELSE p.v, !.lo = IF p.v < q.v THEN p.v ELSE q.v,
                                          !.i = q.i + 1, !.s = q.s, !.e = p.e \/ q.e]
     ELSE base

Asgn(t, i, s) ==
  IF ~IsLoc(t, i) THEN Cond(t, i, s, << >>)
  ELSE LET l == TLCEval(Loc(t, i, s)) o == Sym(t, l.i)
       IN IF l.e \/ (o # "=" /\ o \notin DOMAIN AsgOp) THEN Cond(t, i, s, <<l>>)
          ELSE LET r == TLCEval(Asgn(t, l.i + 1, l.s))
                   old == Get(r.s, l)
               IN IF r.e THEN r
                  ELSE IF o \in {"/=", "%="} /\ r.v = 0 THEN Err(r)
                  ELSE LET s2 == TLCEval(Put(r.s, l, IF o = "=" THEN r.v ELSE Op(AsgOp[o], old, r.v)))
                       IN Res(Get(s2, l), r.i, s2)

\* p: the location at i if it has been read, <<>> otherwise
Cond(t, i, s, p) ==
  LET c == TLCEval(Bin(t, i, s, 1, p))
  IN IF c.e \/ Sym(t, c.i) # "?" THEN c
     ELSE LET a == TLCEval(Expr(t, c.i + 1, c.s))
          IN IF a.e THEN a
             ELSE LET b == TLCEval(Cond(t, a.i + 1, a.s, << >>)) IN IF b.e THEN b ELSE Res(IF c.v # 0 THEN a.v ELSE b.v, b.i, b.s)

\* operators of precedence k and above
Bin(t, i, s, k, p) == BinLoop(t, TLCEval(Unary(t, i, s, p)), k)
BinLoop(t, l, k) ==
  LET o == Sym(t, l.i)
  IN IF l.e THEN l
     ELSE IF o \notin DOMAIN Prec THEN l
     ELSE IF Prec[o] < k THEN l
     ELSE LET r == TLCEval(Bin(t, l.i + 1, l.s, Prec[o] + 1, << >>))
          IN IF r.e THEN r
             ELSE IF o \in {"/", "%"} /\ r.v = 0 THEN Err(r)
             ELSE BinLoop(t, TLCEval(Res(Op(o, l.v, r.v), r.i, r.s)), k)

Unary(t, i, s, p) ==
  LET o == Sym(t, i)
      u(f(_)) == LET r == TLCEval(Unary(t, i + 1, s, << >>)) IN IF r.e THEN r ELSE Res(f(r.v), r.i, r.s)
      none(l) == [v |-> 0, i |-> l.i, s |-> l.s, e |-> TRUE]
      incdec(l, d) == TLCEval(Put(l.s, l, Get(l.s, l) + d))
  IN CASE o = "num" -> Res(t[i].v, i + 1, s)
       [] o = "-" -> u(LAMBDA x : -x)
       [] o = "+" -> u(LAMBDA x : x)
       [] o = "~" -> u(LAMBDA x : -x - 1)
       [] o = "!" -> u(LAMBDA x : I(x = 0))
       [] o \in {"++", "--"} -> LET l == TLCEval(Loc(t, i + 1, s)) s2 == incdec(l, IF o = "++" THEN 1 ELSE -1)
                                IN IF l.e THEN none(l) ELSE Res(Get(s2, l), l.i, s2)
       [] o = "&" -> LET l == TLCEval(Loc(t, i + 1, s)) IN IF l.e THEN none(l) ELSE Res(IF l.hi < 0 THEN l.a ELSE BitAddr(l), l.i, l.s)
       [] o = "(" /\ Sym(t, i + 1) = "int" ->
            LET l == TLCEval(Loc(t, i + 3, s)) x == Get(l.s, l) w == s.w[l.sp]
            IN IF l.e THEN none(l) ELSE Res(IF x >= Pow2(w - 1) THEN x - Pow2(w) ELSE x, l.i, l.s)
       [] o = "(" -> LET r == TLCEval(Expr(t, i + 1, s)) IN [r EXCEPT !.i = @ + 1]
       [] IsLoc(t, i) ->
            LET l == IF p = << >> THEN TLCEval(Loc(t, i, s)) ELSE p[1]
                x == Sym(t, l.i)
            IN IF l.e THEN none(l)
               ELSE IF x \in {"++", "--"} THEN Res(Get(l.s, l), l.i + 1, incdec(l, IF x = "++" THEN 1 ELSE -1))
               ELSE Res(Get(l.s, l), l.i, l.s)

\* the whole of t; pos: where it ended
Eval(t, s) == LET r == TLCEval(Expr(t, 1, s)) IN [v |-> r.v, s |-> r.s, e |-> r.e, all |-> r.e \/ r.i = Len(t) + 1]

\* ---- output formats
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Radix(_, _, _, _)
\* n digits of v in base 2^k, without leading zeros when strip
Radix(v, k, n, strip) ==
  IF n = 0 THEN ""
  ELSE LET p == k * (n - 1)                                   \* position of the first digit
           d == IF p = 31 THEN I(v < 0) ELSE (v \div Pow2(p)) % (IF p + k > 32 THEN Pow2(32 - p) ELSE Pow2(k))
       IN IF strip /\ d = 0 /\ n > 1 THEN Radix(v, k, n - 1, strip)
          ELSE Dig[d + 1] \o Radix(v, k, n - 1, FALSE)
Pad5(x) == LET z == ToString(x) IN
  (IF x < 10 THEN "0000" ELSE IF x < 100 THEN "000" ELSE IF x < 1000 THEN "00" ELSE IF x < 10000 THEN "0" ELSE "") \o z
Udec(v) == IF v >= 0 THEN ToString(v)
           ELSE LET k == v + 2147483647 + 1        \* value is 2^31 + k = 21474 * 100000 + 83648 + k
                    lo == 83648 + (k % 100000)
                    hi == 21474 + (k \div 100000)
                IN ToString(hi + (lo \div 100000)) \o Pad5(lo % 100000)
Chars == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7",
           "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
           "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g",
           "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
Esc == (7 :> "a") @@ (8 :> "b") @@ (27 :> "e") @@ (12 :> "f") @@ (10 :> "n") @@ (13 :> "r") @@ (9 :> "t") @@ (11 :> "v")
Fmt1(f, v) ==
  CASE f = "x" -> Radix(v, 4, 8, TRUE) [] f = "X" -> "0x" \o Radix(v, 4, 8, TRUE) [] f = "$" -> "$" \o Radix(v, 4, 8, TRUE)
    [] f = "0" -> "0x" \o Radix(v, 4, 8, FALSE) [] f = "d" -> ToString(v) [] f = "u" -> Udec(v)
    [] f = "o" -> Radix(v, 3, 11, TRUE) [] f = "b" -> Radix(v, 1, 32, FALSE)
    [] f = "B" -> ToString(I(v # 0)) [] f = "L" -> IF v # 0 THEN "T" ELSE "F"
    [] f = "c" -> IF v \in 32 .. 126 THEN "'" \o Chars[v - 31] \o "'"
                  ELSE IF v \in DOMAIN Esc THEN "'\\" \o Esc[v] \o "'"
                  ELSE "'\\" \o (IF v \in 0 .. 63 THEN Radix(v, 3, 3, FALSE) ELSE Radix(v, 3, 11, TRUE)) \o "'"
\* printed lines of a value: one for each format, a plain decimal without any
Lines(fs, v) == LET g == SelectSeq(fs, LAMBDA f : f # "n") IN
                IF fs = << >> THEN <<ToString(v)>> ELSE [i \in DOMAIN g |-> Fmt1(g[i], v)]
=============================================================================
