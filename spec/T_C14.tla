------------------------------- MODULE T_C14 -------------------------------
(* The same step with strict mode (s) and without (n).                      *)
EXTENDS TraceBase, Isa
Strict == {"StrictRegSetUninit", "StrictMemSetUninit", "StrictIOSetUninit", "StrictJmpAddrUninit", "StrictSRAddrUninit",
           "StrictMemAddrUninit", "StrictPCCurrUninit", "StrictPCNextUninit", "StrictPSRSetUninit"}
Aspect(b, s) == IF b THEN {} ELSE {s}
MM(i, k) ==
  LET e == Traces[i].ev[k]  s == e.s  n == e.n IN
  IF s.res = "panic" \/ n.res = "panic" THEN {"panic"}
  ELSE Aspect(n.res \notin Strict, "strict error without strict mode")
  \cup (IF s.res \in Strict THEN Aspect(~e.init, "strict error on an initialised machine")
        ELSE Aspect(s.res = n.res, IF n.res = "ok" THEN "fails only in strict mode, with another error" ELSE "result")
          \cup (IF s.res # "ok" \/ n.res # "ok" THEN {} ELSE
            Aspect(s.post.r = n.post.r, "registers") \cup Aspect(s.post.pc = n.post.pc, "pc") \cup Aspect(s.post.psr = n.post.psr, "psr")
            \cup Aspect(s.post = n.post, "state") \cup Aspect(s.diff = n.diff, "memory") \cup Aspect(s.out = n.out /\ s.log = n.log, "device effects")
            \cup Aspect(s.acc = n.acc, "observed accesses") \cup Aspect(s.fs = n.fs, "frames") \cup Aspect(e.same, "words")))
============================================================================
