------------------------------- MODULE T_C24 -------------------------------
(* <<text, line table <<line, address>>, line lookups <<line, address or -1>>, *)
(* address lookups <<address, line or -1>>>>                                 *)
EXTENDS TraceBase, Asm, Sweep
LinesOf(o, ln) == {x[2] : x \in {y \in o.lines : y[1] = ln}}
AddrsOf(o, a) == {x[1] : x \in {y \in o.lines : y[2] = a}}
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF Len(e) = 6 THEN LinesMM(e) ELSE
  LET p == ParseText(e[1]) IN
  IF p[1] # "ok" THEN {}
  ELSE LET o == Asm(p[2], e[1]) IN
       IF o.unspec \/ o.errs # {} THEN {}
       ELSE (IF {e[2][j] : j \in DOMAIN e[2]} # o.lines \/ Len(e[2]) # Cardinality(o.lines) THEN {"line table"} ELSE {})
            \cup (IF \A j \in DOMAIN e[3] : e[3][j][2] \in (IF LinesOf(o, e[3][j][1]) = {} THEN {-1} ELSE LinesOf(o, e[3][j][1])) THEN {} ELSE {"address of a line"})
            \cup (IF \A j \in DOMAIN e[4] : LET q == e[4][j] IN
                       IF AddrsOf(o, q[1]) # {} THEN q[2] \in AddrsOf(o, q[1])
                       ELSE q[2] = -1 \/ q[1] \notin {x[2] : x \in o.lines}
                  THEN {} ELSE {"line of an address"})
============================================================================
