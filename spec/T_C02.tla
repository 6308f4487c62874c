------------------------------- MODULE T_C02 -------------------------------
(* <<text, result, result with debug symbols>>: <<"ok">>, <<"err", kind>> or *)
(* <<"panic", message>>.                                                    *)
EXTENDS TraceBase, Asm
One(r, o) ==
  CASE r[1] = "panic" -> {"panic"}
    [] r[1] = "ok" -> IF o.errs = {} THEN {} ELSE {"accepted a program with " \o ToString(o.errs)}
    [] r[1] = "err" -> IF o.errs = {} THEN {"rejected a well-formed program"}
                       ELSE IF r[2] \notin o.errs THEN {"error names none of " \o ToString(o.errs)} ELSE {}
MM(i, k) ==
  LET e == Traces[i].ev[k]  p == ParseText(e[1]) IN
  IF p[1] # "ok" THEN {}
  ELSE LET o == Asm(p[2], e[1]) IN
       IF o.unspec THEN (IF "panic" \in {e[2][1], e[3][1]} THEN {"panic"} ELSE {})
       ELSE One(e[2], o) \cup One(e[3], o)
============================================================================
