------------------------------- MODULE T_C36 -------------------------------
(* <<printed text, statement, the code's parse of the printed text>>         *)
EXTENDS TraceBase, Parse
MM(i, k) ==
  LET e == Traces[i].ev[k]  p == ParseText(e[1]) IN
  (IF e[3] = <<"ok", <<e[2]>>>> THEN {} ELSE {"reparsed differently"})
  \cup (IF p = Unspec \/ (p # Bad /\ StripAll(p[2]) = <<e[2]>>) THEN {} ELSE {"not the statement by the grammar"})
============================================================================
