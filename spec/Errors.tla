------------------------------- MODULE Errors -------------------------------
(* Error classes and the reports of executed instructions.

   Classes form a tree; a class is on, off, or has no value of its own and follows its parent
   (the root always has one).  An instruction which makes an error of a class that is on is
   completed, the error is reported with the address of the instruction and execution stops;
   errors of classes which are off leave no trace. *)
EXTENDS Integers, Sequences, TLC

Root == "non-classified"
\* name, parent, initial own value, in order of the report with depth
Tree == << <<"non-classified", "", "on", 0>>, <<"stack", Root, "on", 1>>, <<"stack_overflow", "stack", "unset", 2>>,
           <<"memory", Root, "off", 1>>, <<"invalid_address", "memory", "unset", 2>>, <<"non_decoded", "memory", "unset", 2>>,
           <<"unknown_code", Root, "off", 1>> >>
Names == {Tree[i][1] : i \in DOMAIN Tree}
Row(n) == CHOOSE i \in DOMAIN Tree : Tree[i][1] = n
Parent(n) == Tree[Row(n)][2]
InitOwn == [n \in Names |-> Tree[Row(n)][3]]

RECURSIVE IsOn(_, _)
IsOn(own, n) == IF own[n] = "unset" THEN (IF n = Root THEN TRUE ELSE IsOn(own, Parent(n))) ELSE own[n] = "on"

SetOwn(own, n, v) ==
  IF n \notin Names \/ v \notin {"on", "off", "unset"} \/ (n = Root /\ v = "unset") THEN own
  ELSE [own EXCEPT ![n] = v]

Report(own) == [i \in DOMAIN Tree |-> <<Tree[i][4], Tree[i][1], own[Tree[i][1]], IF IsOn(own, Tree[i][1]) THEN "ON" ELSE "OFF">>]

(* Machines: stack pointer width, direction, rule of overflow:
   "wrap": a store moves the pointer around the end of the stack area, "limit": a store leaves it below the limit *)
Up(cpu) == cpu = "s51"
SpMod(cpu) == IF cpu \in {"s51", "mos6502"} THEN 256 ELSE 65536
Rule(cpu) == IF cpu \in {"s51", "mos6502"} THEN "wrap" ELSE "limit"

(* STM8: with roll on the pointer goes back to its start when it gets to the limit *)
SpStart == 6143
Roll(roll, limit, v) == IF roll /\ v = limit THEN SpStart ELSE v
RECURSIVE Steps(_, _, _, _)
Steps(roll, limit, sp, n) ==
  IF n = 0 THEN sp ELSE IF n > 0 THEN Steps(roll, limit, Roll(roll, limit, sp - 1), n - 1)
  ELSE Steps(roll, limit, Roll(roll, limit, sp + 1), n + 1)

After(cpu, roll, limit, sp, n) ==
  IF cpu = "stm8" THEN Steps(roll, limit, sp, n)
  ELSE ((IF Up(cpu) THEN sp + n ELSE sp - n) + 65536) % SpMod(cpu)
Over(cpu, sp, sp2, limit) ==
  IF Rule(cpu) = "wrap" THEN (IF Up(cpu) THEN sp2 < sp ELSE sp2 > sp) ELSE sp2 < limit

(* An instruction: op, a (address of it), len, n (bytes stored / taken), x (operand).
   Result: next sp and the error: <<class, data>> or << >> *)
Exec(cpu, roll, sp, limit, i) ==
  CASE i.op = "push" -> LET sp2 == After(cpu, roll, limit, sp, i.n)
                        IN <<sp2, IF Over(cpu, sp, sp2, limit) THEN <<"stack_overflow", i.a>> ELSE << >> >>
    [] i.op = "pop" -> <<After(cpu, roll, limit, sp, -(i.n)), << >> >>
    [] i.op = "bad" -> <<sp, <<"unknown_code", i.a, i.x>> >>
    [] i.op = "far" -> <<sp, IF i.x >= i.size THEN <<"invalid_address", i.x>> ELSE << >> >>
    [] OTHER -> <<sp, << >> >>

(* The program q from its k-th instruction: [pc, sp, stop, err]; max > 0: at most so many instructions *)
RECURSIVE Run(_, _, _, _, _, _, _, _)
Run(own, cpu, roll, limit, q, k, sp, left) ==
  IF k > Len(q) \/ left = 0
  THEN [pc |-> IF k > Len(q) THEN q[Len(q)].a + q[Len(q)].len ELSE q[k].a, sp |-> sp, stop |-> IF left = 0 THEN 109 ELSE 104, msg |-> << >>]
  ELSE LET r == Exec(cpu, roll, sp, limit, q[k])
       IN IF r[2] # << >> /\ IsOn(own, r[2][1])
          THEN [pc |-> q[k].a + q[k].len, sp |-> r[1], stop |-> 108, msg |-> <<r[2], <<"instruction", q[k].a>> >>]
          ELSE Run(own, cpu, roll, limit, q, k + 1, r[1], left - 1)

\* design properties checked by MCErrors
Monotone(own) == \A n \in Names : own[n] = "unset" => IsOn(own, n) = IsOn(own, Parent(n))
=============================================================================
