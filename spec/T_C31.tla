------------------------------- MODULE T_C31 -------------------------------
(* Twins: the same setting twice, step by step.  Known fills: every         *)
(* register, and every word outside of the OS image and the I/O page.       *)
EXTENDS TraceBase
IoLo == 65024
\* rows <<lo, hi, value>>; with the image's rows they cover all below the I/O page
Size(rows) == LET RECURSIVE Sum(_)
                  Sum(k) == IF k > Len(rows) THEN 0 ELSE rows[k][2] - rows[k][1] + 1 + Sum(k + 1) IN Sum(1)
Known(e) ==
  (IF \A j \in DOMAIN e.regs : e.regs[j] = e.known THEN {} ELSE {"registers"})
  \cup (IF \A j \in DOMAIN e.rows : e.rows[j][1] >= IoLo \/ e.rows[j][3] = e.known THEN {} ELSE {"memory"})
  \cup (IF Size(e.rows) + Size(e.os) = 65536 THEN {} ELSE {"coverage"})
First(a, b) == LET d == {j \in DOMAIN a : a[j] # b[j]} IN CHOOSE j \in d : \A x \in d : j <= x
Names == <<"PC", "PSR", "registers, memory or counts", "result", "output">>
Twins(e) ==
  (IF e.first[1] = e.first[2] THEN {} ELSE {"the machines to begin with"})
  \cup (IF e.last[1] = e.last[2] THEN {} ELSE {"the machines in the end"})
  \cup (IF e.a = e.b THEN {} ELSE IF Len(e.a) # Len(e.b) THEN {"length"}
        ELSE LET j == First(e.a, e.b) IN {Names[x] : x \in {y \in 1..5 : e.a[j][y] # e.b[j][y]}})
  \cup (IF \E j \in DOMAIN e.a : e.a[j][4] = "panic" THEN {"panic"} ELSE {})
Elsewhere(e) == IF e.here = e.there THEN {} ELSE {"another process"}
MM(i, k) == LET e == Traces[i].ev[k] IN IF "here" \in DOMAIN e THEN Elsewhere(e) ELSE IF "known" \in DOMAIN e THEN Known(e) ELSE Twins(e)
============================================================================
