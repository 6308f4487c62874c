------------------------------- MODULE T_C28 -------------------------------
(* What the access observer reports after each step, and after runs: runs   *)
(* carry the accesses of the same steps taken one at a time.                *)
EXTENDS TraceBase, StepTrace
Got(acc, b) == {acc[j][1] : j \in {k \in DOMAIN acc : (acc[k][2] & b) # 0 /\ ~IO(acc[k][1])}}
RunEv(e) ==
  LET all(b) == UNION {Got(e.steps[j], b) : j \in DOMAIN e.steps} IN
  Aspect(Got(e.acc, 1) = all(1), "reads of the run") \cup Aspect(Got(e.acc, 2) = all(2), "writes of the run")
  \cup Aspect(Got(e.acc, 4) = all(4), "changes of the run")
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF "steps" \in DOMAIN e THEN RunEv(e)
  ELSE IF e.res = "panic" THEN {"panic"}
  ELSE LET k0 == CoreOf(e) IN Best(Step(k0, e.g), LAMBDA o : Observer(e, o))
============================================================================
