------------------------------- MODULE T_C12 -------------------------------
(* A program under virtual traps (a) and the same under real traps (b).     *)
EXTENDS TraceBase, StepTrace, Os
Faults == {"AccessViolation", "PrivilegeViolation", "IllegalOpcode", "InvalidInstrFormat"}
MM(i, k) ==
  LET e == Traces[i].ev[k]  a == e.a  b == e.b IN
  IF a.end = "panic" \/ b.end = "panic" THEN {"panic"}
  ELSE IF a.end = "halt" THEN
    Aspect(b.end = "halt", "does not halt") \cup Aspect(b.out = a.out, "output")
    \cup Aspect(SubSeq(b.r, 1, 6) = SubSeq(a.r, 1, 6), "R0-R5") \cup Aspect(b.mem = a.mem, "user memory") \cup Aspect(b.kb = a.kb, "input")
    \cup Aspect(IsPriv(b.psr) /\ ~InUser(b.pc), "not stopped in the OS")
  ELSE IF a.end \in Faults THEN
    Aspect(b.end = "halt", "does not halt") \cup Aspect(b.out = a.out \o Message(a.end), "message") \cup Aspect(b.mem = a.mem, "user memory")
    \cup Aspect(b.kb = a.kb, "input") \cup Aspect(IsPriv(b.psr) /\ ~InUser(b.pc), "not stopped in the OS")
  ELSE {}    \* stopped by the driver's limit
============================================================================
