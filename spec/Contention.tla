----------------------------- MODULE Contention -----------------------------
(* Keyboard and display buffers that another thread may hold.  State s:     *)
(*   q, out  the buffers          kbl, dsl  held by the other thread?       *)
(*   sk, sd  has the program seen the device ready, with no transfer since? *)
EXTENDS Integers, Sequences
Start(q) == [q |-> q, out |-> <<>>, kbl |-> FALSE, dsl |-> FALSE, sk |-> FALSE, sd |-> FALSE]

\* What a status read may say.  A held buffer may look not ready; a ready
\* keyboard has a byte.
KbReady(s) == IF s.q = <<>> THEN {FALSE} ELSE IF s.kbl THEN BOOLEAN ELSE {TRUE}
DsReady(s) == IF s.dsl THEN BOOLEAN ELSE {TRUE}
KbStatus(s, b) == [s EXCEPT !.sk = @ \/ b]
DsStatus(s, b) == [s EXCEPT !.sd = @ \/ b]
\* The outcomes of a data read: <<byte or -1, next state>>.  A program that saw
\* the keyboard ready gets the byte, if need be by waiting for the other thread.
Taken(s) == <<Head(s.q), [s EXCEPT !.q = Tail(@), !.sk = FALSE]>>
KbTake(s) ==
  IF s.q = <<>> THEN {<<-1, s>>}
  ELSE IF s.sk \/ ~s.kbl THEN {Taken(s)}
  ELSE {Taken(s), <<-1, s>>}
\* The outcomes of a data write.
Put(s, b) == [s EXCEPT !.out = Append(@, b), !.sd = FALSE]
DsPut(s, b) == IF s.sd \/ ~s.dsl THEN {Put(s, b)} ELSE {Put(s, b), s}
\* The other thread.
Hold(s, k, b) == IF k = "kb" THEN [s EXCEPT !.kbl = b] ELSE [s EXCEPT !.dsl = b]
Feed(s, bs) == [s EXCEPT !.q = @ \o bs]
============================================================================
