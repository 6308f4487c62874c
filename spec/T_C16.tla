------------------------------- MODULE T_C16 -------------------------------
(* Runs from arbitrary states: every step has a result, an error is one of  *)
(* the simulator's errors, and the faulting address can be asked for.       *)
EXTENDS TraceBase
Errors == {"IllegalOpcode", "InvalidInstrFormat", "PrivilegeViolation", "AccessViolation", "UnresolvedExternal", "Interrupt",
           "StrictRegSetUninit", "StrictMemSetUninit", "StrictIOSetUninit", "StrictJmpAddrUninit", "StrictSRAddrUninit",
           "StrictMemAddrUninit", "StrictPCCurrUninit", "StrictPCNextUninit", "StrictPSRSetUninit"}
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  {<<e[j][1], e[j][2]>> : j \in {x \in DOMAIN e : e[x][2] \notin Errors \cup {"ok"} \/ e[x][3] \notin 0..65535}}
============================================================================
