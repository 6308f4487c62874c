------------------------------- MODULE T_C04 -------------------------------
(* <<"ok"|"err"|"panic", .., length of the input, spans of the error>>       *)
EXTENDS TraceBase
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  CASE e[1] = "ok" -> {}
    [] e[1] = "err" -> IF e[4] # <<>> /\ \A s \in DOMAIN e[4] : 0 <= e[4][s][1] /\ e[4][s][1] <= e[4][s][2] /\ e[4][s][2] <= e[3]
                       THEN {} ELSE {"span outside the input"}
    [] OTHER -> {"panic"}
============================================================================
