------------------------------ MODULE StepTrace ------------------------------
(* One recorded machine step against Machine!Step.  An event is a record:   *)
(*   g    configuration             pre, post  [r, pc, psr, ssp, mcr, kb,   *)
(*   kbie, ds (length), fl (frame depth), n (instructions run)]             *)
(*   view <<address, word>>: memory before, wherever the step may look      *)
(*   diff <<address, word>>: all memory words that changed                  *)
(*   out  bytes that appeared on the display                                *)
(*   log  the custom devices' log   res, at: result and faulting address    *)
(*   acc  <<address, accesses>>: the observer (1 read, 2 written, 4 changed)*)
EXTENDS Machine

CoreOf(e) ==
  LET ix == {e.view[j][1] : j \in DOMAIN e.view}
      val(a) == e.view[CHOOSE j \in DOMAIN e.view : e.view[j][1] = a][2] IN
  [m |-> [a \in ix |-> val(a)],
   r |-> e.pre.r, pc |-> e.pre.pc, psr |-> e.pre.psr, ssp |-> e.pre.ssp, mcr |-> e.pre.mcr,
   kb |-> e.pre.kb, kbie |-> e.pre.kbie, out |-> <<>>, log |-> e.log,
   rd |-> {}, wr |-> {}, fr |-> <<>>, bad |-> {}, unspec |-> FALSE, halt |-> FALSE, v |-> 0]

Aspect(b, s) == IF b THEN {} ELSE {s}
\* PSR after RTI: undefined bits are ignored, an impossible condition code may be normalised
PsrEq(spec, real) == LET a == spec & 34567  b == real & 34567 IN
  a = b \/ (~OneHot(CC(a)) /\ b = WithCC(a, 2))
DiffSet(e) == {<<e.diff[j][1], e.diff[j][2]>> : j \in DOMAIN e.diff}
Plain(D) == {x \in D : ~IO(x[1])}
Changed(c0, c) == {<<a, c.m[a]>> : a \in {x \in c.wr : ~IO(x) /\ c.m[x] # c0.m[x]}}

\* registers, PC, PSR, devices, memory; k0 is the core before, o an outcome
MemOk(e, k0, o) ==
  Aspect(Plain(DiffSet(e)) = Changed(k0, o.c), "memory")
  \cup Aspect(\A x \in DiffSet(e) : IO(x[1]) => Assoc(e.g.ireg, x[1]) # "none" \/ Assoc(e.g.own, x[1]) # "none", "unowned port")
DevOk(e, o) ==
  LET c == o.c IN
  Aspect(e.post.mcr = c.mcr, "mcr")
  \cup Aspect(e.post.kb = c.kb /\ e.post.kbie = c.kbie, "keyboard")
  \cup Aspect(e.out = c.out, "display")
  \cup Aspect(c.log = <<>>, "device access not expected")
CpuOk(e, o) ==
  LET c == o.c IN
  Aspect(e.res = o.res, "result")
  \cup Aspect(e.post.r = c.r, "registers")
  \cup Aspect(e.post.pc = c.pc \/ (o.res # "ok" /\ e.post.pc \in o.pcs), "pc")
  \cup Aspect(PsrEq(c.psr, e.post.psr), "psr")
  \cup Aspect(e.post.ssp = c.ssp, "saved stack pointer")
  \cup Aspect((o.res # "ok" \/ c.halt) => e.at = o.at, "faulting address")
Arch(e, k0, o) == o.c.bad \cup CpuOk(e, o) \cup DevOk(e, o) \cup MemOk(e, k0, o)

\* the access observer, outside of the I/O page
Observer(e, o) ==
  LET got(b) == {e.acc[j][1] : j \in {k \in DOMAIN e.acc : (e.acc[k][2] & b) # 0 /\ ~IO(e.acc[k][1])}}
      plain(s) == {a \in s : ~IO(a)} IN
  Aspect(plain(o.c.rd) \subseteq got(1), "read not recorded") \cup Aspect(got(1) \subseteq plain(o.c.rd), "recorded read did not happen")
  \cup Aspect(plain(o.c.wr) \subseteq got(2), "write not recorded") \cup Aspect(got(2) \subseteq plain(o.c.wr), "recorded write did not happen")
  \cup Aspect({x[1] : x \in Plain(DiffSet(e))} \subseteq got(4), "change not recorded") \cup Aspect(got(4) \subseteq got(2), "unwritten word marked changed")

\* the outcome a real step comes closest to, judged by F; unspecified steps match anything
Best(os, F(_)) ==
  IF \E o \in os : o.c.unspec \/ F(o) = {} THEN {}
  ELSE F(CHOOSE o \in os : \A p \in os : Cardinality(F(o)) <= Cardinality(F(p)))
=============================================================================
