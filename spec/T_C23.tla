------------------------------- MODULE T_C23 -------------------------------
(* <<text, label listing, queries, reverse queries>> of one symbol table:    *)
(* listing = <<name, address, external>>, query = <<name asked, address or   *)
(* -1, source span lo, hi (-1, -1: none)>>, reverse = <<address, name or <<>>>> *)
EXTENDS TraceBase, Asm, Sweep
Slice(s, lo, hi) == SubSeq(s, lo + 1, hi)
QueryMM(q, o, s) ==
  LET nm == UpSeq(q[1])  binds == o.place.binds IN
  IF nm \notin Names(binds) THEN (IF q[2] # -1 THEN {"address of an unknown name"} ELSE {}) \cup (IF q[3] # -1 THEN {"source of an unknown name"} ELSE {})
  ELSE LET b == FirstBind(binds, nm) IN
       (IF q[2] # b[2] THEN {"address lookup"} ELSE {})
       \cup (IF q[3] = -1 THEN {"no source span"}
             ELSE IF <<q[3], q[4]>> # <<b[4], b[5]>> THEN {"source span"} ELSE {})
RevMM(q, o) ==
  LET at == {x[1] : x \in {y \in o.labels : y[2] = q[1]}} IN
  IF at = {} THEN (IF q[2] = <<>> THEN {} ELSE {"reverse lookup where no label is"})
  ELSE IF UpSeq(q[2]) \in at THEN {} ELSE {"reverse lookup"}
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF Len(e) = 6 THEN LabelsMM(e) ELSE
  LET p == ParseText(e[1]) IN
  IF p[1] # "ok" THEN {}
  ELSE LET o == Asm(p[2], e[1]) IN
       IF o.unspec \/ o.errs # {} THEN {}
       ELSE (IF {<<UpSeq(x[1]), x[2], x[3]>> : x \in {e[2][j] : j \in DOMAIN e[2]}} # o.labels \/ Len(e[2]) # Cardinality(o.labels) THEN {"listing"} ELSE {})
            \cup UNION {QueryMM(e[3][j], o, e[1]) : j \in DOMAIN e[3]}
            \cup UNION {RevMM(e[4][j], o) : j \in DOMAIN e[4]}
============================================================================
