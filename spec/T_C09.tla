------------------------------- MODULE T_C09 -------------------------------
(* User-mode steps with privilege checks on: what the specification calls a *)
(* violation is one, with no other effect; what is not a violation touches  *)
(* user memory only, unless it enters supervisor mode.                      *)
EXTENDS TraceBase, StepTrace
Applies(e) == ~IsPriv(e.pre.psr) /\ ~e.g.ign
Contained(e) ==
  Aspect(\A j \in DOMAIN e.diff : InUser(e.diff[j][1]), "memory outside of user space changed")
  \cup Aspect(\A j \in DOMAIN e.acc : InUser(e.acc[j][1]), "accessed outside of user space")
  \cup Aspect(\A j \in DOMAIN e.log : e.log[j][1] = "p", "device accessed")
  \cup Aspect(e.post.kb = e.pre.kb /\ e.post.kbie = e.pre.kbie /\ e.out = <<>>, "keyboard or display accessed")
  \cup Aspect(e.post.mcr = e.pre.mcr, "machine control changed")
  \cup Aspect(e.post.ssp = e.pre.ssp, "saved stack pointer changed")
  \cup Aspect(~IsPriv(e.post.psr), "became privileged") \cup Aspect(Prio(e.post.psr) = Prio(e.pre.psr), "priority changed")
MM(i, k) ==
  LET e == Traces[i].ev[k]  k0 == CoreOf(e)  os == Step(k0, e.g)  o == CHOOSE x \in os : TRUE IN
  IF ~Applies(e) THEN {}
  ELSE IF e.res = "panic" THEN {"panic"}
  ELSE IF o.irq \/ o.c.unspec THEN {}    \* (a stack pointed at memory-mapped registers is the supervisor's doing)
  ELSE IF o.fault \in {"AccessViolation", "PrivilegeViolation"} THEN Best(os, LAMBDA x : Arch(e, k0, x))
  ELSE IF e.res = "ok" /\ IsPriv(o.c.psr) THEN {}        \* TRAP, or another exception, under real traps
  ELSE Contained(e)
============================================================================
