------------------------------- MODULE T_C03 -------------------------------
(* <<text, what the code's parser returned, assembled image, what was        *)
(* written>>; every event of a trace is the same program in another layout.  *)
EXTENDS TraceBase, Parse
MM(i, k) ==
  LET e == Traces[i].ev[k]  p == ParseText(e[1]) IN
  IF p[1] = "unspec" THEN {}
  ELSE (IF p[1] = "ok" /\ e[2] # p THEN {"statements differ from the text"} ELSE {})
    \cup (IF e[4] # <<>> /\ p # Bad /\ StripAll(p[2]) # e[4] THEN {"generator"} ELSE {})
    \cup (IF e[2][1] = "panic" THEN {"panic"} ELSE {})
    \cup (IF e[3] # Traces[i].ev[1][3] THEN {"image depends on layout"} ELSE {})
============================================================================
