------------------------------- MODULE T_C10 -------------------------------
(* Steps with interrupt requests, and pairs of runs: a uninterrupted, b the *)
(* same program with requests whose handlers restore what they use.         *)
EXTENDS TraceBase, StepTrace
Requested(e) == (\E j \in DOMAIN e.log : e.log[j][1] = "p" /\ e.log[j][3] # "none") \/ (e.pre.kb # <<>> /\ e.pre.kbie)
\* the real step took an interrupt: it pushed the old PC and PSR and did not execute
Harmless(e, k0) == LET d == Decode(At(k0, e.pre.pc)) IN d[1] = "ok" /\ d[2][1] \in {"BR", "ADD", "AND", "NOT", "LEA"}
StepEv(e) ==
  LET k0 == CoreOf(e)  os == Step(k0, e.g) IN
  IF e.res = "panic" THEN {"panic"}
  ELSE IF \E o \in os : o.irq THEN Best(os, LAMBDA o : Arch(e, k0, o))
  ELSE IF Requested(e) /\ Harmless(e, k0) /\ InUser(e.pre.pc) THEN Best(os, LAMBDA o : Arch(e, k0, o))
  ELSE {}
PairEv(e) ==
  LET a == e.a  b == e.b IN
  Aspect(a.end = b.end, "end") \cup Aspect(a.r = b.r, "registers") \cup Aspect(CC(a.psr) = CC(b.psr), "condition codes")
  \cup Aspect(a.psr = b.psr, "psr") \cup Aspect(a.ssp = b.ssp, "stack pointer") \cup Aspect(a.pc = b.pc, "pc")
  \cup Aspect(a.mem = b.mem, "user memory") \cup Aspect(a.out = b.out, "output") \cup Aspect(a.kb = b.kb, "input")
MM(i, k) == LET e == Traces[i].ev[k] IN IF "pair" \in DOMAIN e THEN PairEv(e) ELSE StepEv(e)
============================================================================
