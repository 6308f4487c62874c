------------------------------- MODULE T_C08 -------------------------------
(* Recorded machine steps (StepTrace) are steps of Machine.                 *)
EXTENDS TraceBase, StepTrace
MM(i, k) ==
  LET e == Traces[i].ev[k]  k0 == CoreOf(e) IN
  IF e.res = "panic" THEN {"panic"} ELSE Best(Step(k0, e.g), LAMBDA o : Arch(e, k0, o))
============================================================================
