----------------------------- MODULE MC_Machine -----------------------------
(* Machine!Step on every instruction word (or a set of representative ones) *)
(* in every mode, at interesting places, with interesting operands and      *)
(* interrupt requests: the step is total and well-typed, user code stays in *)
(* user space, privilege only rises through a vector, entry and RTI cancel, *)
(* and frames follow calls and returns.                                     *)
EXTENDS Machine
CONSTANTS Lows,      \* low twelve bits of the instruction words tried
          Places,    \* addresses of the instruction
          Fills,     \* register contents: <<R0..R7>>
          Psrs, Kbs, Prios
SomeLows == {0, 1, 7, 32, 37, 63, 255, 256, 448, 449, 511, 1023, 1087, 1535, 2047, 2048, 3520, 4095}
SomePlaces == {12288, 65023, 512}
SomeFills == {<<0, 1, 32768, 65535, 12288, 65024, 12400, 12345>>, <<65534, 65532, 12287, 65023, 8192, 4096, 8192, 65535>>}
SomePsrs == {32769, 2, 1028, 33540}
SomeKbs == {<<>>, <<7>>}
SomePrios == {3, 6}
FewPsrs == {32769, 1028}
FewKbs == {<<>>}
FewPrios == {3}
AllLows == 0..4095
AllPlaces == {12288}
OneFill == {<<0, 1, 32768, 65535, 12288, 65024, 12400, 12345>>}
VARIABLES g, c
vars == <<g, c>>

\* the second half of every machine: vectors, a return stack, something to load
Mem(at, w) ==
  (at :> w) @@ (37 :> 4096) @@ (32 :> 65535) @@ (255 :> 12288) @@ (256 :> 512) @@ (257 :> 513) @@ (258 :> 514) @@ (385 :> 515)
  @@ (12400 :> 12288) @@ (12401 :> 32770) @@ (8192 :> 4660) @@ (8193 :> 1025) @@ (65535 :> 40000)
Core(at, w, r, psr, ssp, kb, irq) ==
  [m |-> Mem(at, w), r |-> r, pc |-> at, psr |-> psr, ssp |-> ssp, mcr |-> TRUE, kb |-> kb, kbie |-> kb # <<>>,
   out |-> <<>>, log |-> IF irq < 0 THEN <<>> ELSE <<<<"p", "t", "v", 129, irq>>>>,
   rd |-> {}, wr |-> {}, fr |-> <<>>, bad |-> {}, unspec |-> FALSE, halt |-> FALSE, v |-> 0]
Init ==
  /\ g \in [real : BOOLEAN, ign : BOOLEAN, ireg : {<<<<65532, "PSR">>, <<65534, "MCR">>>>, <<<<65532, "PSR">>, <<65534, "MCR">>, <<65040, "PC">>, <<65041, "SSP">>>>},
            own : {<<<<KBSR, "kb">>, <<KBDR, "kb">>, <<DSR, "ds">>, <<DDR, "ds">>>>}, devs : {<<>>, <<"t">>}]
  /\ c = <<>>
OpNibbles == 0..15
Next ==
  /\ c = <<>> /\ UNCHANGED g
  /\ \E op \in OpNibbles, lo \in Lows, at \in Places, r \in Fills, psr \in Psrs, kb \in Kbs, p \in (IF g.devs = <<>> THEN {0} ELSE Prios) :
       c' = Core(at, op * 4096 + lo, r, psr, 12288, kb, IF g.devs = <<>> THEN -1 ELSE p)
Spec == Init /\ [][Next]_vars
OS == Step(c, g)
Busy == c # <<>>

Results == {"ok", "Interrupt", "PrivilegeViolation", "IllegalOpcode", "InvalidInstrFormat", "AccessViolation"}
Pushes(o) == {j \in DOMAIN o.c.fr : o.c.fr[j][1] = "push"}
Entered(o) == \E j \in Pushes(o) : o.c.fr[j][4] \in {"trap", "int", "exc"}

Total == Busy => OS # {} /\ \A o \in OS :
  /\ o.res \in Results /\ o.c.pc \in Word /\ o.c.psr \in Word /\ o.c.ssp \in Word
  /\ \A k \in 1..8 : o.c.r[k] \in Word
  /\ \A a \in DOMAIN o.c.m : a \in Word /\ o.c.m[a] \in Word
  /\ Len(o.c.fr) <= 1 /\ o.c.log = <<>> /\ o.c.bad \subseteq {"view"}
User == ~IsPriv(c.psr) /\ ~g.ign
\* in user mode nothing outside user space is read, written or changed except by an entry
Contained == (Busy /\ User) => \A o \in OS :
  LET pushed == {SubW(c.ssp, 1), SubW(c.ssp, 2)} IN
  IF Entered(o)
  THEN /\ o.c.wr \subseteq pushed /\ o.c.out = <<>> /\ o.c.kb = c.kb /\ o.c.kbie = c.kbie
       /\ \A a \in o.c.rd : InUser(a) \/ a = o.c.fr[1][3]
       /\ IsPriv(o.c.psr) /\ o.c.ssp = Reg(c, 6) /\ o.c.pc = At(o.c, o.c.fr[1][3])
  ELSE /\ \A a \in o.c.wr \cup o.c.rd : InUser(a)
       /\ ~IsPriv(o.c.psr) /\ Prio(o.c.psr) = Prio(c.psr) /\ o.c.ssp = c.ssp
       /\ o.c.out = <<>> /\ o.c.kb = c.kb /\ o.c.kbie = c.kbie /\ o.c.mcr = c.mcr
\* privilege rises only through a vector
Raised == Busy => \A o \in OS : ((~IsPriv(c.psr)) /\ IsPriv(o.c.psr)) =>
  (Entered(o) \/ (g.ign /\ Decode(At(c, c.pc))[1] = "ok" /\ Decode(At(c, c.pc))[2][1] \in {"RTI", "ST", "STI", "STR"}))
\* a request is taken exactly when its priority is above the processor's; entry costs the program nothing
Highest == IF c.kb # <<>> THEN (IF g.devs # <<>> /\ c.log[1][5] > 4 THEN c.log[1][5] ELSE 4) ELSE IF g.devs # <<>> THEN c.log[1][5] ELSE 0
Gated == Busy => \A o \in OS : /\ (o.irq <=> Highest > Prio(c.psr))
                              /\ (o.irq => (Prio(o.c.psr) = Highest /\ CC(o.c.psr) = 2))
                              /\ (((~o.irq) /\ Entered(o)) => (Prio(o.c.psr) = Prio(c.psr) \/ o.c.unspec))
\* what RTI at the handler would restore: everything but the two words below the supervisor stack
Quiet(d) == [d EXCEPT !.log = <<>>, !.kbie = FALSE, !.rd = {}, !.wr = {}, !.fr = <<>>, !.bad = {}]
Cancels == Busy => \A o \in OS : (Entered(o) /\ ~IO(o.c.pc) /\ ~o.c.unspec /\ \A a \in o.c.wr : ~IO(a) /\ a # o.c.pc) =>
  LET h == Quiet(SetM(o.c, o.c.pc, 32768))
      back == Step(h, [g EXCEPT !.devs = <<>>]) IN
  \A b \in back : /\ b.res = "ok" /\ b.c.psr = c.psr /\ b.c.ssp = c.ssp /\ b.c.r = c.r
                  /\ b.c.pc \in {c.pc, AddW(c.pc, 1)} /\ (o.irq => b.c.pc = c.pc) /\ ((o.fault = "" /\ ~o.irq) => b.c.pc = AddW(c.pc, 1))
                  /\ b.c.fr = <<<<"pop">>>>
\* frames: calls and entries push, RET and RTI pop, nothing else does
Frames == Busy => \A o \in OS :
  LET d == Decode(At(c, c.pc))  i == IF d[1] = "ok" THEN d[2] ELSE <<"none">> IN
  IF o.irq THEN o.c.fr = <<<<"push", c.pc, IF Highest = 4 THEN 256 + 128 ELSE 256 + 129, "int">>>>
  ELSE IF o.fault # "" THEN (IF g.real THEN Len(o.c.fr) = 1 /\ o.c.fr[1][4] = "exc" /\ o.c.fr[1][2] = c.pc ELSE o.c.fr = <<>>)
  ELSE IF i[1] = "JSR" THEN o.c.fr = <<<<"push", c.pc, o.c.pc, "sub">>>> /\ Reg(o.c, 7) = AddW(c.pc, 1)
  ELSE IF i[1] = "TRAP" /\ ~o.c.halt THEN o.c.fr = <<<<"push", c.pc, i[2], "trap">>>>
  ELSE IF i[1] = "RTI" \/ (i[1] = "JMP" /\ i[2] = 7) THEN o.c.fr = <<<<"pop">>>>
  ELSE o.c.fr = <<>>
\* condition codes stay one-hot, except when RTI pops something else; only results set them
Codes == Busy => \A o \in OS : LET d == Decode(At(c, c.pc)) IN
  \/ OneHot(CC(o.c.psr)) \/ (d[1] = "ok" /\ d[2][1] = "RTI")
\* a fault without real traps has no effect but the reading of memory
Faults == Busy => \A o \in OS : (o.fault # "" /\ ~g.real) => o.c.r = c.r /\ o.c.psr = c.psr /\ o.c.ssp = c.ssp /\ o.c.wr = {} /\ o.c.out = <<>> /\ o.n = 0
============================================================================
