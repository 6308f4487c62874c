------------------------------- MODULE T_C30 -------------------------------
(* A life, then reset: the machine part is that of a new machine with the   *)
(* same flags, the configuration part is as before.                         *)
EXTENDS TraceBase
Aspect(b, s) == IF b THEN {} ELSE {s}
Elems(q) == {q[j] : j \in DOMAIN q}
Go(x, y) ==
  Aspect(x.res = y.res, "result of a program run later") \cup Aspect(x.m = y.m, "state after a program run later")
  \cup Aspect(x.mem = y.mem /\ x.out = y.out /\ x.kb = y.kb /\ x.at = y.at, "effects of a program run later")
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF "panic" \in DOMAIN e THEN {"panic"} ELSE
  LET f == e.fresh  s == e.reset  a == e.before  b == e.after IN
  Aspect(e.mem = <<>>, "memory") \cup Aspect(s.r = f.r /\ s.ri = f.ri, "registers") \cup Aspect(s.pc = f.pc, "PC")
  \cup Aspect(s.psr = f.psr, "PSR") \cup Aspect(s.ssp = f.ssp, "saved stack pointer") \cup Aspect(s.depth = f.depth /\ s.frames = f.frames, "frames")
  \cup Aspect(s.n = f.n, "instruction count") \cup Aspect(s.halt = f.halt /\ s.bp = f.bp, "halt or breakpoint status")
  \cup Aspect(a.flags = b.flags, "flags") \cup Aspect(a.bps = b.bps /\ a.nbps = b.nbps, "breakpoints") \cup Aspect(a.mcr /\ b.mcr, "MCR handle")
  \cup Aspect(a.dev = b.dev /\ Elems(a.polled) = Elems(b.polled) /\ Len(a.polled) = Len(b.polled), "devices")
  \cup Aspect(Elems(e.map) = Elems(e.want), "register mappings") \cup Aspect(e.newid \notin Elems(e.ids) /\ e.newid > 2, "device ids")
  \cup (IF "go" \in DOMAIN e THEN Go(e.go[1], e.go[2]) ELSE {})
============================================================================
