------------------------------- MODULE Machine -------------------------------
(* One step of the LC-3 machine.                                             *)
(*                                                                           *)
(* The core c is a record                                                    *)
(*   m   memory (a function; whatever part of it the step may need)          *)
(*   r   registers R0..R7 (r[1] = R0)      pc, psr   16-bit words            *)
(*   ssp the stack pointer not in use      mcr       running?                *)
(*   kb, kbie  keyboard queue, interrupt enable      out   display output    *)
(*   log what custom devices were asked and answered, still to be accounted  *)
(*       for: <<"p", dev, kind, vect, prio>>, <<"r", dev, addr, answer>>     *)
(*       (-1: none), <<"w", dev, addr, word, accepted>>                      *)
(*   rd, wr  addresses read and written so far in this step                  *)
(*   fr  frame operations, bad what could not be accounted for               *)
(* The configuration g: real (real traps), ign (privilege checks ignored),   *)
(*   ireg, own (sequences of <<address, register>>, <<address, device>>),    *)
(*   devs (custom devices).                                                  *)
EXTENDS Isa, TLC

UserLo == 12288   UserHi == 65023   IoLo == 65024
IO(a) == a >= IoLo
InUser(a) == UserLo <= a /\ a <= UserHi
KBSR == 65024  KBDR == 65026  DSR == 65028  DDR == 65030

IsPriv(psr) == Bit(psr, 15) = 0
Prio(psr) == Bits(psr, 10, 8)
CC(psr) == Bits(psr, 2, 0)
WithCC(psr, cc) == psr - CC(psr) + cc
OneHot(cc) == cc \in {1, 2, 4}
WithUser(psr, u) == (psr % 32768) + (IF u THEN 32768 ELSE 0)
WithPrio(psr, p) == psr - Prio(psr) * 256 + p * 256
PsrSet(d) == LET v == d & 34567 IN IF OneHot(CC(v)) THEN v ELSE WithCC(v, 2)    \* x8707
CcOf(v) == IF v >= 32768 THEN 4 ELSE IF v = 0 THEN 2 ELSE 1
MaySee(c, g) == IsPriv(c.psr) \/ g.ign

Assoc(s, k) == LET ix == {j \in DOMAIN s : s[j][1] = k} IN IF ix = {} THEN "none" ELSE s[CHOOSE j \in ix : TRUE][2]
At(c, a) == IF a \in DOMAIN c.m THEN c.m[a] ELSE 0
Flag(c, a) == IF a \in DOMAIN c.m THEN c ELSE [c EXCEPT !.bad = @ \cup {"view"}]
SetM(c, a, v) == [c EXCEPT !.m = (a :> v) @@ @]

\* --- reading and writing: the value read is left in field v
RdMem(c, a) == [Flag(c, a) EXCEPT !.v = At(c, a)]
RdIo(c, g, a) ==
  LET ir == Assoc(g.ireg, a)  ow == Assoc(g.own, a)
      got(d, v) == [SetM(d, a, v) EXCEPT !.v = v] IN
  IF ir # "none" THEN
    got(c, CASE ir = "PC" -> c.pc [] ir = "PSR" -> c.psr [] ir = "MCR" -> (IF c.mcr THEN 32768 ELSE 0) [] ir = "SSP" -> c.ssp)
  ELSE IF ow = "none" THEN RdMem(c, a)
  ELSE IF ow = "kb" THEN
    (IF a = KBSR THEN got(c, (IF c.kb # <<>> THEN 32768 ELSE 0) + (IF c.kbie THEN 16384 ELSE 0))
     ELSE IF c.kb = <<>> THEN RdMem(c, a) ELSE got([c EXCEPT !.kb = Tail(@)], Head(c.kb)))
  ELSE IF ow = "ds" THEN (IF a = DSR THEN got(c, 32768) ELSE RdMem(c, a))
  ELSE IF c.log = <<>> \/ Head(c.log)[1] # "r" \/ Head(c.log)[2] # ow \/ Head(c.log)[3] # a
       THEN [RdMem(c, a) EXCEPT !.bad = @ \cup {"device read expected"}]
  ELSE LET d == [c EXCEPT !.log = Tail(@)]  ans == Head(c.log)[4] IN
       IF ans < 0 THEN RdMem(d, a) ELSE got(d, ans)
Read(c0, g, a) == LET c == [c0 EXCEPT !.rd = @ \cup {a}] IN IF IO(a) THEN RdIo(c, g, a) ELSE RdMem(c, a)

Write(c, g, a, v) ==
  LET done(d) == [SetM(d, a, v) EXCEPT !.wr = @ \cup {a}]
      ir == Assoc(g.ireg, a)  ow == Assoc(g.own, a) IN
  IF ~IO(a) THEN done(Flag(c, a))
  ELSE IF ir # "none" THEN
    done(CASE ir = "PC" -> [c EXCEPT !.pc = v] [] ir = "PSR" -> [c EXCEPT !.psr = PsrSet(v)]
           [] ir = "MCR" -> [c EXCEPT !.mcr = (v >= 32768)] [] ir = "SSP" -> [c EXCEPT !.ssp = v])
  ELSE IF ow = "none" THEN c
  ELSE IF ow = "kb" THEN (IF a = KBSR THEN done([c EXCEPT !.kbie = (Bit(v, 14) = 1)]) ELSE c)
  ELSE IF ow = "ds" THEN (IF a = DDR THEN done([c EXCEPT !.out = Append(@, v % 256)]) ELSE c)
  ELSE IF c.log = <<>> \/ Head(c.log)[1] # "w" \/ Head(c.log)[2] # ow \/ Head(c.log)[3] # a \/ Head(c.log)[4] # v
       THEN [c EXCEPT !.bad = @ \cup {"device write expected"}]
  ELSE LET d == [c EXCEPT !.log = Tail(@)] IN IF Head(c.log)[5] THEN done(d) ELSE d

Reg(c, k) == c.r[k + 1]
SetR(c, k, v) == [c EXCEPT !.r[k + 1] = v]
Load(c, k, v) == [SetR(c, k, v) EXCEPT !.psr = WithCC(@, CcOf(v))]

\* --- traps, exceptions, interrupts.  saved: the return address pushed.
\* kind: "trap", "int", "exc"; prio: -1 for none; caller: the instruction
Enter(c0, g, vect, prio, saved, kind, caller) ==
  LET c1 == IF IsPriv(c0.psr) THEN c0 ELSE [SetR(c0, 6, c0.ssp) EXCEPT !.ssp = Reg(c0, 6)]
      sp == Reg(c1, 6)
      c2 == [SetR(c1, 6, SubW(sp, 2)) EXCEPT !.psr = WithUser(@, FALSE)]
      c3 == Write(Write(c2, g, SubW(sp, 1), c0.psr), g, SubW(sp, 2), saved)
      c4 == [c3 EXCEPT !.psr = LET p == WithCC(@, 2) IN IF prio < 0 THEN p ELSE WithPrio(p, prio)]
      c5 == Read(c4, g, vect)
  IN [c5 EXCEPT !.pc = c5.v, !.fr = Append(@, <<"push", caller, vect, kind>>),
               !.unspec = @ \/ Assoc(g.ireg, SubW(sp, 1)) # "none" \/ Assoc(g.ireg, SubW(sp, 2)) # "none"]
ExcVect(kind) == CASE kind = "PrivilegeViolation" -> 256 [] kind \in {"IllegalOpcode", "InvalidInstrFormat"} -> 257 [] OTHER -> 258

\* --- outcomes: <<result, core, PCs allowed after an error, faulting instruction, instructions counted>>
Ok(c, at) == {[res |-> "ok", c |-> c, pcs |-> {c.pc}, at |-> at, n |-> 1, fault |-> "", irq |-> FALSE]}
\* a fault of the instruction at `at`; retry: the PC may still be at the instruction
Fault(c, g, kind, at, retry) ==
  LET next == {AddW(at, 1)} \cup (IF retry THEN {at} ELSE {}) IN
  IF ~g.real THEN {[res |-> kind, c |-> c, pcs |-> {at, AddW(at, 1)}, at |-> at, n |-> 0, fault |-> kind, irq |-> FALSE]}
  ELSE {LET d == Enter(c, g, ExcVect(kind), -1, s, "exc", at) IN
        [res |-> "ok", c |-> d, pcs |-> {d.pc}, at |-> at, n |-> 0, fault |-> kind, irq |-> FALSE] : s \in next}
\* continue with F(value) after a checked read / write
LoadFrom(c, g, a, at, F(_)) == IF ~MaySee(c, g) /\ ~InUser(a) THEN Fault(c, g, "AccessViolation", at, FALSE) ELSE F(Read(c, g, a))
StoreTo(c, g, a, v, at) == IF ~MaySee(c, g) /\ ~InUser(a) THEN Fault(c, g, "AccessViolation", at, FALSE) ELSE Ok(Write(c, g, a, v), at)

\* c: PC already points past the instruction i at address at
Exec(c, g, i, at) ==
  LET ea == AddW(c.pc, IF i[1] \in {"BR"} \cup PcOps THEN i[3] ELSE 0)
      base == IF i[1] \in {"LDR", "STR"} THEN AddW(Reg(c, i[3]), i[4]) ELSE 0
      opnd == IF i[1] \in {"ADD", "AND"} THEN (IF i[4] = 1 THEN Wrap(i[5]) ELSE Reg(c, i[5])) ELSE 0
      call(a) == [SetR(c, 7, c.pc) EXCEPT !.pc = a, !.fr = Append(@, <<"push", at, a, "sub">>)] IN
  CASE i[1] = "BR"  -> Ok([c EXCEPT !.pc = IF (i[2] & CC(c.psr)) # 0 THEN ea ELSE @], at)
    [] i[1] = "ADD" -> Ok(Load(c, i[2], AddW(Reg(c, i[3]), opnd)), at)
    [] i[1] = "AND" -> Ok(Load(c, i[2], AndW(Reg(c, i[3]), opnd)), at)
    [] i[1] = "NOT" -> Ok(Load(c, i[2], NotW(Reg(c, i[3]))), at)
    [] i[1] = "LEA" -> Ok(SetR(c, i[2], ea), at)
    [] i[1] = "LD"  -> LoadFrom(c, g, ea, at, LAMBDA d : Ok(Load(d, i[2], d.v), at))
    [] i[1] = "LDR" -> LoadFrom(c, g, base, at, LAMBDA d : Ok(Load(d, i[2], d.v), at))
    [] i[1] = "LDI" -> LoadFrom(c, g, ea, at, LAMBDA d : LoadFrom(d, g, d.v, at, LAMBDA e : Ok(Load(e, i[2], e.v), at)))
    [] i[1] = "ST"  -> StoreTo(c, g, ea, Reg(c, i[2]), at)
    [] i[1] = "STR" -> StoreTo(c, g, base, Reg(c, i[2]), at)
    [] i[1] = "STI" -> LoadFrom(c, g, ea, at, LAMBDA d : StoreTo(d, g, d.v, Reg(d, i[2]), at))
    [] i[1] = "JMP" -> Ok([c EXCEPT !.pc = Reg(c, i[2]), !.fr = IF i[2] = 7 THEN Append(@, <<"pop">>) ELSE @], at)
    [] i[1] = "JSR" -> Ok(IF i[2] = 1 THEN call(AddW(c.pc, i[3])) ELSE call(Reg(c, i[3])), at)
    [] i[1] = "TRAP" ->
         IF i[2] = 37 /\ ~g.real        \* virtual HALT
         THEN {[res |-> "ok", c |-> [c EXCEPT !.pc = at, !.halt = TRUE], pcs |-> {at}, at |-> at, n |-> 0, fault |-> "", irq |-> FALSE]}
         ELSE Ok(Enter(c, g, i[2], -1, c.pc, "trap", at), at)
    [] i[1] = "RTI" ->
         IF ~MaySee(c, g) THEN Fault(c, g, "PrivilegeViolation", at, FALSE)
         ELSE LET sp == Reg(c, 6)
                  c1 == Read(c, g, sp)  npc == c1.v
                  c2 == Read(c1, g, AddW(sp, 1))  npsr == c2.v
                  c3 == [SetR(c2, 6, AddW(sp, 2)) EXCEPT !.pc = npc, !.psr = npsr, !.fr = Append(@, <<"pop">>),
                           !.unspec = @ \/ Assoc(g.ireg, sp) # "none" \/ Assoc(g.ireg, AddW(sp, 1)) # "none"]
                  c4 == IF IsPriv(npsr) THEN c3 ELSE [SetR(c3, 6, c3.ssp) EXCEPT !.ssp = Reg(c3, 6)]
              IN Ok(c4, at)

\* --- the step: poll the devices, then interrupt entry or an instruction
IsPoll(x) == x[1] = "p"
NPolls(log) == IF \A j \in DOMAIN log : IsPoll(log[j]) THEN Len(log) ELSE (CHOOSE j \in DOMAIN log : ~IsPoll(log[j]) /\ \A k \in 1..(j - 1) : IsPoll(log[k])) - 1
\* every device is polled exactly once, before anything else
PollsOk(c, g) == LET n == NPolls(c.log) IN
  /\ n = Len(g.devs)
  /\ {c.log[j][2] : j \in 1..n} = {g.devs[j] : j \in DOMAIN g.devs}
Pending(c, n) ==
  {[vect |-> c.log[j][4], prio |-> IF c.log[j][5] > 7 THEN 7 ELSE c.log[j][5]] : j \in {k \in 1..n : c.log[k][3] = "v"}}
  \cup (IF c.kb # <<>> /\ c.kbie THEN {[vect |-> 128, prio |-> 4]} ELSE {})
Step(c0, g) ==
  LET n == NPolls(c0.log)
      ext == \E j \in 1..n : c0.log[j][3] = "x"
      pend == Pending(c0, n)
      best == {p \in pend : \A q \in pend : q.prio <= p.prio}
      at == c0.pc
      c == [c0 EXCEPT !.log = SubSeq(@, n + 1, Len(@)), !.bad = @ \cup (IF PollsOk(c0, g) THEN {} ELSE {"polls"})]
  IN IF ext THEN {[res |-> "Interrupt", c |-> c, pcs |-> {at}, at |-> at, n |-> 0, fault |-> "ext", irq |-> TRUE]}
     ELSE IF \E p \in best : p.prio > Prio(c.psr)
     THEN {[res |-> "ok", c |-> Enter(c, g, 256 + p.vect, p.prio, at, "int", at), pcs |-> {}, at |-> at, n |-> 0, fault |-> "", irq |-> TRUE] : p \in best}
     ELSE IF ~MaySee(c, g) /\ ~InUser(at) THEN Fault(c, g, "AccessViolation", at, TRUE)
     ELSE LET f == Read(c, g, at)  d == Decode(f.v)  k == [f EXCEPT !.pc = AddW(at, 1)] IN
          CASE d[1] = "ok" -> Exec(k, g, d[2], at)
            [] d[1] = "ill" -> Fault(k, g, "IllegalOpcode", at, TRUE)
            [] OTHER -> Fault(k, g, "InvalidInstrFormat", at, TRUE)
=============================================================================
