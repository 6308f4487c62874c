------------------------------- MODULE T_C07 -------------------------------
(* <<w, printed mnemonic, words it reassembles to at several addresses, text>> *)
EXTENDS TraceBase, Isa
MM(i, k) == LET e == Traces[i].ev[k] IN
      (IF e[2] \in Mnemonics(e[1]) THEN {} ELSE {"mnemonic"})
 \cup (IF \A j \in 1..Len(e[3]) : e[3][j] = e[1] THEN {} ELSE {"reassembled word"})
============================================================================
