------------------------------- MODULE T_C34 -------------------------------
(* Operations on a real timer: polls without an interrupt ("n", how many),  *)
(* interrupts ("f", vector, priority), "en", "reset", "range", "as" (vector *)
(* and priority set).  A pair: two timers with the same seed.               *)
EXTENDS TraceBase, Timer
RECURSIVE Walk(_, _, _, _)
Walk(ops, k, o, as) ==
  IF k > Len(ops) THEN {}
  ELSE LET p == ops[k] IN
    CASE p[1] = "n" -> (IF Quiet(o, p[2]) = {} THEN Walk(ops, k + 1, AfterQuiet(o, p[2]), as) ELSE Quiet(o, p[2]))
      [] p[1] = "f" -> (IF Fire(o) # {} THEN Fire(o)
                        ELSE IF (p[2] >= 0 /\ p[2] # as[1]) \/ p[3] # (IF as[2] > 7 THEN 7 ELSE as[2]) THEN {"vector or priority"}
                        ELSE Walk(ops, k + 1, AfterFire(o), as))
      [] p[1] = "en" -> Walk(ops, k + 1, Enable(o, p[2]), as)
      [] p[1] = "reset" -> Walk(ops, k + 1, Reset(o), as)
      [] p[1] = "range" -> Walk(ops, k + 1, Range(o, p[2], p[3]), as)
      [] p[1] = "as" -> Walk(ops, k + 1, o, <<p[2], p[3]>>)
      [] OTHER -> {p[1]}
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  Walk(e.ops, 1, Start(e.lo, e.hi, FALSE), <<e.vect, e.prio>>)
  \cup (IF "twin" \notin DOMAIN e \/ e.twin = e.ops THEN {} ELSE {"another sequence for the same seed"})
============================================================================
