------------------------------- MODULE T_C01 -------------------------------
(* <<text, assembled, assembled with debug symbols>>; an assembly result is *)
(* <<"ok", initialised words, uninitialised runs, labels>>, <<"err", kind>> *)
(* or <<"panic", message>>.                                                 *)
EXTENDS TraceBase, Asm, Sweep
One(r, o, dbg) ==
  IF r[1] # "ok" THEN {}
  ELSE (IF {r[2][j] : j \in DOMAIN r[2]} # o.init THEN {"words"} ELSE {})
    \cup (IF {r[3][j] : j \in DOMAIN r[3]} # o.runs THEN {"uninitialised words"} ELSE {})
    \cup (IF Len(r[2]) # Cardinality(o.init) THEN {"word listed twice"} ELSE {})
    \cup (IF dbg /\ {r[4][j] : j \in DOMAIN r[4]} # o.labels THEN {"labels"} ELSE {})
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF Len(e) = 5 THEN WordsMM(e) ELSE
  LET p == ParseText(e[1]) IN
  IF p[1] # "ok" THEN {}
  ELSE LET o == Asm(p[2], e[1]) IN
       IF o.unspec \/ o.errs # {} THEN {}
       ELSE (IF e[2][1] # "ok" \/ e[3][1] # "ok" THEN {"not assembled"} ELSE {})
            \cup One(e[2], o, FALSE) \cup One(e[3], o, TRUE)
============================================================================
