------------------------------- MODULE MC_Irq -------------------------------
(* A user program with a loop, a call and a trap, interrupted at every      *)
(* boundary by up to Budget requests of a keyboard and two devices of       *)
(* different priorities, whose handlers restore what they use and return    *)
(* with RTI.  s is the same program left alone.  Whenever no handler is     *)
(* active, the interrupted machine is the uninterrupted one.                *)
EXTENDS Machine, TLC
CONSTANTS Budget, Rounds, Prog
\* programs: 1 counts and stores under all condition codes, 2 with a subroutine and a trap routine
P0 == 12288
Main(k) ==
  IF k = 1 THEN
   << <<"ADD", 0, 0, 1, Rounds>>,       \* x3000
      <<"ST", 0, 5>>,                   \* x3001 -> x3007
      <<"ADD", 0, 0, 1, -1>>,           \* x3002
      <<"BR", 1, -3>>,                  \* x3003: positive -> x3001
      <<"NOT", 1, 0>>,                  \* x3004
      <<"BR", 4, -1>>,                  \* x3005: negative -> itself
      <<"BR", 7, -1>>,                  \* x3006 the end
      <<"BR", 0, 0>> >>                 \* x3007 data
  ELSE
   << <<"ADD", 6, 6, 1, -1>>,           \* x3000 the program's own stack
      <<"JSR", 1, 4>>,                  \* x3001 -> x3006
      <<"TRAP", 48>>,                   \* x3002
      <<"STR", 1, 6, 0>>,               \* x3003
      <<"BR", 7, -1>>,                  \* x3004 the end
      <<"BR", 0, 0>>,
      <<"AND", 1, 1, 1, 0>>,            \* x3006
      <<"ADD", 1, 1, 1, -3>>,           \* x3007
      <<"JMP", 7>> >>                   \* x3008
TrapH == << <<"ADD", 6, 6, 1, -1>>, <<"STR", 2, 6, 0>>, <<"ADD", 2, 1, 1, 1>>, <<"NOT", 1, 2>>, <<"LDR", 2, 6, 0>>, <<"ADD", 6, 6, 1, 1>>, <<"RTI">> >>
\* saves on the stack; saves in memory (safe: never nested in itself); reads the keyboard
H1 == << <<"ADD", 6, 6, 1, -1>>, <<"STR", 0, 6, 0>>, <<"AND", 0, 0, 1, 0>>, <<"LDR", 0, 6, 0>>, <<"ADD", 6, 6, 1, 1>>, <<"RTI">> >>
H2 == << <<"ST", 1, 4>>, <<"AND", 1, 1, 1, 0>>, <<"ADD", 1, 1, 1, -1>>, <<"LD", 1, 1>>, <<"RTI">>, <<"BR", 0, 0>> >>
HK == << <<"ST", 0, 4>>, <<"LDI", 0, 2>>, <<"LD", 0, 2>>, <<"RTI">>, <<"ADD", 7, 0, 0, 2>>, <<"BR", 0, 0>> >>
Put(seq, at) == [a \in at..(at + Len(seq) - 1) |-> Encode(seq[a - at + 1])]
Mem(k) == Put(Main(k), P0) @@ Put(TrapH, 1024) @@ Put(H1, 1280) @@ Put(H2, 1536) @@ ((1796 :> 65026) @@ Put(HK, 1792))
  @@ (48 :> 1024) @@ (256 + 129 :> 1280) @@ (256 + 130 :> 1536) @@ (256 + 128 :> 1792)
  @@ [a \in (12288 - 24)..12287 |-> 0] @@ [a \in 16380..16384 |-> 0]
HasKb == {"kb"}
VARIABLES c, s, n, nest, left, prog
vars == <<c, s, n, nest, left, prog>>
Own == <<<<KBSR, "kb">>, <<KBDR, "kb">>, <<DSR, "ds">>, <<DDR, "ds">>>>
G == [real |-> FALSE, ign |-> FALSE, ireg |-> <<<<65532, "PSR">>, <<65534, "MCR">>>>, own |-> Own, devs |-> <<"a", "b">>]
G0 == [G EXCEPT !.devs = <<>>]
Start(k) == [m |-> Mem(k), r |-> <<0, 7, 9, 0, 0, 0, 16384, 0>>, pc |-> P0, psr |-> 32770, ssp |-> 12288, mcr |-> TRUE, kb |-> <<>>, kbie |-> TRUE,
   out |-> <<>>, log |-> <<>>, rd |-> {}, wr |-> {}, fr |-> <<>>, bad |-> {}, unspec |-> FALSE, halt |-> FALSE, v |-> 0]
Init == prog \in Prog /\ c = Start(prog) /\ s = Start(prog) /\ n = 0 /\ nest = <<>> /\ left = Budget
Clean(d) == [d EXCEPT !.rd = {}, !.wr = {}, !.fr = <<>>, !.v = 0]
None(dev) == <<"p", dev, "none", 0, 0>>
Req(dev, v, p) == <<"p", dev, "v", v, p>>
\* what the two devices ask for: equal and different priorities, either order
Asks == {<<None("a"), None("b")>>, <<Req("a", 129, 3), None("b")>>, <<None("a"), Req("b", 130, 5)>>, <<Req("a", 129, 3), Req("b", 130, 5)>>,
         <<Req("b", 130, 0), None("a")>>, <<Req("a", 129, 4), None("b")>>}
Cost(a) == Cardinality({j \in 1..2 : a[j][3] = "v"})
Kinds(fr, st) == IF fr = <<>> THEN st ELSE IF fr[1][1] = "push" THEN Append(st, fr[1][4]) ELSE IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st) - 1)
InHandler(st) == \E j \in DOMAIN st : st[j] = "int"
Ended(d) == d.pc = P0 + (IF prog = 1 THEN 6 ELSE 4)
Tick ==
  /\ ~(Ended(s) /\ c.kb = <<>> /\ ~InHandler(nest))
  /\ \E a \in Asks, key \in {0, 1} :
     /\ Cost(a) + key <= left
     /\ left' = left - Cost(a) - key
     /\ LET c1 == [c EXCEPT !.log = a, !.kb = IF key = 1 THEN Append(@, 65) ELSE @] IN
        \E o \in Step(c1, G) :
          /\ c' = Clean(o.c) /\ nest' = Kinds(o.c.fr, nest)
          /\ IF o.irq \/ InHandler(nest) THEN UNCHANGED <<s, n>>
             ELSE s' \in {Clean(q.c) : q \in Step(s, G0)} /\ n' = n + 1
  /\ UNCHANGED prog
Spec == Init /\ [][Tick]_vars
User(m) == [a \in {x \in DOMAIN m : InUser(x)} |-> m[a]]
\* nobody active: the program cannot tell
Transparent == ~InHandler(nest) =>
  /\ c.r = s.r /\ c.pc = s.pc /\ c.psr = s.psr /\ c.ssp = s.ssp /\ c.mcr = s.mcr /\ c.out = s.out /\ User(c.m) = User(s.m)
  /\ \A a \in DOMAIN c.m : (a < 12264 \/ a >= 12288) => (a \in DOMAIN s.m => (c.m[a] = s.m[a] \/ a \in {1541, 1797}))
  /\ Len(nest) = 0 \/ nest = <<"sub">> \/ nest = <<"trap">>
\* active: handlers are supervisors and nest by strictly rising priority, no deeper than there are levels
Nested == InHandler(nest) => IsPriv(c.psr)
Levels == Cardinality({j \in DOMAIN nest : nest[j] = "int"}) <= 3
Fine == c.bad = {} /\ ~c.unspec
Rises == [][(Len(nest') > Len(nest) /\ nest'[Len(nest')] = "int") => Prio(c'.psr) > Prio(c.psr)]_vars
View == <<c, s, nest, left, prog>>
=============================================================================
