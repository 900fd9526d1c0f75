------------------------------- MODULE SimIf --------------------------------
(* The simulator interface: a memory cell behind which the simulated program
   talks to the simulator.  A command is one character written into the cell, its
   parameters are further writes, its answer is read from the same cell.

   st: cv   contents of the plain cells [address -> byte], the interface sits at at (-1: nowhere)
       act  character of the active command, 0 if none
       par  parameters received      ans  bytes of the answer still to be read      wait  parameters are expected
       fin  bytes left in the input file   fout  bytes written to the output file
       lim  execution limit          con  what was printed by the event (characters)
       stop simulation stopped by the event     rst  CPU reset by the event *)
EXTENDS Bits

\* command |-> <<parameters, answer type>>;   types: 1 byte, 2 array, 3 string, 4 none, 8 32 bit number
Cmds == (95 :> <<0, 1>>) @@ (105 :> <<0, 2>>) @@ (118 :> <<0, 1>>) @@ (86 :> <<0, 3>>) @@ (64 :> <<0, 4>>)
     @@ (73 :> <<1, 2>>) @@ (104 :> <<1, 3>>) @@ (115 :> <<0, 1>>) @@ (112 :> <<1, 4>>) @@ (120 :> <<1, 4>>)
     @@ (102 :> <<0, 1>>) @@ (114 :> <<0, 1>>) @@ (119 :> <<1, 4>>) @@ (82 :> <<0, 4>>) @@ (76 :> <<4, 4>>) @@ (108 :> <<0, 8>>)
Order == <<95, 105, 118, 86, 64, 73, 104, 115, 112, 120, 102, 114, 119, 82, 76, 108>>

Str(s) == <<Len(s) + 1>> \o s \o <<0>>
HexC == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>

\* answer of command c with parameters p
Answer(st, c, p) ==
  CASE c = 95 -> <<33>>
    [] c = 105 -> <<Len(Order)>> \o Order
    [] c = 118 -> <<2>>
    [] c = 86 -> Str(st.ver)
    [] c = 73 -> <<2>> \o (IF p[1] \in DOMAIN Cmds THEN Cmds[p[1]] ELSE <<0, 0>>)
    [] c = 104 -> IF p[1] \in DOMAIN Cmds THEN Str(st.desc[p[1]]) ELSE <<0>>
    [] c = 115 -> <<115>>
    [] c = 102 -> <<I(st.fin # << >>)>>
    [] c = 114 -> <<IF st.fin = << >> THEN 0 ELSE st.fin[1]>>
    [] c = 108 -> <<4>> \o st.lim
    [] OTHER -> << >>

\* the command has all its parameters
Execute(st, c, p) ==
  LET a == Answer(st, c, p)
      s1 == [st EXCEPT !.ans = a, !.act = IF a = << >> THEN 0 ELSE c, !.par = << >>, !.wait = FALSE]
  IN CASE c = 112 -> [s1 EXCEPT !.con = <<p[1]>>]
       [] c = 120 -> [s1 EXCEPT !.con = <<HexC[(p[1] \div 16) + 1], HexC[(p[1] % 16) + 1]>>]
       [] c = 119 -> [s1 EXCEPT !.fout = IF st.open THEN Append(@, p[1]) ELSE @]
       [] c = 114 -> [s1 EXCEPT !.fin = IF @ = << >> THEN @ ELSE Tail(@)]
       [] c = 115 -> [s1 EXCEPT !.stop = TRUE]
       [] c = 82 -> [s1 EXCEPT !.rst = TRUE]
       [] c = 76 -> [s1 EXCEPT !.lim = p, !.newlim = TRUE]
       [] OTHER -> s1

Idle(st) == [st EXCEPT !.con = << >>, !.stop = FALSE, !.rst = FALSE, !.newlim = FALSE]

Command(st, v) ==
  IF st.act = 0
  THEN IF v \notin DOMAIN Cmds THEN st
       ELSE IF Cmds[v][1] = 0 THEN Execute(st, v, << >>)
       ELSE [st EXCEPT !.act = v, !.wait = TRUE, !.par = << >>]
  ELSE IF ~st.wait THEN st
  ELSE LET p == Append(st.par, v)
       IN IF Len(p) = Cmds[st.act][1] THEN Execute(st, st.act, p) ELSE [st EXCEPT !.par = p]

Write(st, a, v) == LET s1 == IF a = st.at THEN TLCEval(Command(st, v)) ELSE st IN [s1 EXCEPT !.cv[a] = v]

\* <<value, state>>
Read(st, a) ==
  LET d == st.cv[a]
  IN IF a # st.at THEN <<d, st>>
     ELSE IF st.act = 0 THEN <<255 - d, st>>
     ELSE IF st.ans = << >> THEN <<d, st>>
     ELSE <<st.ans[1], [st EXCEPT !.ans = Tail(@), !.act = IF Len(st.ans) = 1 THEN 0 ELSE @]>>

Limit(st) == IF st.lim[4] > 0 \/ st.lim[3] > 0 THEN 1000000 ELSE (st.lim[2] * 256) + st.lim[1]
=============================================================================
