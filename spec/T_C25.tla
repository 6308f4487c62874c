------------------------------- MODULE T_C25 -------------------------------
(* <<text, line count, lines <<lo, hi, text>>, positions <<index, line,      *)
(* column>>, answer beyond the last line is "none"?>>                        *)
EXTENDS TraceBase, Source, Sweep
LineMM(s, i, x) ==
  LET sp == LineSpan(s, i)  a == LineStart(s, i) IN
  (IF x[3] # LineText(s, i) THEN {"text of a line"} ELSE {})
  \cup (IF sp[1] < sp[2] THEN (IF <<x[1], x[2]>> # sp THEN {"span of a line"} ELSE {})
        ELSE IF x[1] = x[2] /\ a <= x[1] /\ x[1] <= LineEnd(s, a) THEN {} ELSE {"span of a blank line"})
MM(i, k) ==
  LET e == Traces[i].ev[k]  s == e[1] IN
  IF Len(e) = 6 THEN SourceMM(e) ELSE
  (IF e[2] # CountLines(s) THEN {"line count"} ELSE {})
  \cup (IF Len(e[3]) # CountLines(s) THEN {"lines"} ELSE UNION {LineMM(s, j - 1, e[3][j]) : j \in DOMAIN e[3]})
  \cup (IF \A j \in DOMAIN e[4] : <<e[4][j][2], e[4][j][3]>> = PosPair(s, e[4][j][1]) THEN {} ELSE {"position"})
  \cup (IF e[5] THEN {} ELSE {"a line beyond the last"})
============================================================================
