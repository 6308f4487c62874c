------------------------------- MODULE T_C15 -------------------------------
(* <<op, <<va, ma>>, <<vb, mb>>, <<vr, mr>>>> recorded from the real words *)
EXTENDS TraceBase, InitWord
MM(i, k) == LET e == Traces[i].ev[k] IN
  IF e[1] = "panic" THEN {"panic"}
  ELSE (IF Sound(e[1], e[2], e[3], e[4]) THEN {} ELSE {"unsound"})
       \cup (IF Full(e[1], e[2], e[3], e[4]) THEN {} ELSE {"full"})
============================================================================
