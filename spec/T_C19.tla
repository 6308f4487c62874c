------------------------------- MODULE T_C19 -------------------------------
(* What may happen to arbitrary input: it is read or rejected, and an object  *)
(* that was read can be written again, linked with other files and loaded,    *)
(* each of which ends normally.  Events are <<stage, outcome, how often>> in  *)
(* the order the stages ran for a class of inputs.                            *)
EXTENDS TraceBase
Stages == {"read", "write", "reread", "link", "load"}
Allowed(st) == CASE st = "read" -> {"rejected", "object"} [] st = "write" -> {"ok"}
                 [] st = "reread" -> {"rejected", "object"} [] st = "link" -> {"ok", "err"} [] st = "load" -> {"ok", "err"}
MM(i, k) ==
  LET ev == Traces[i].ev  e == ev[k] IN
  (IF e[1] \in Stages /\ e[2] \in Allowed(e[1]) THEN {} ELSE {e[1] \o ": " \o e[2]})
  \cup (IF k > 1 /\ ev[k - 1][1] = "read" /\ ev[k - 1][2] = "rejected" THEN {"an object after rejection"} ELSE {})
============================================================================
