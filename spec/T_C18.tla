------------------------------- MODULE T_C18 -------------------------------
(* Round trips: <<texts of the files, result, original, read back>>; result = *)
(* "equal", "different", "rejected" or "panic: ..."; original and read back   *)
(* are what the two object files show: <<initialised words, runs, labels,     *)
(* label sources, lines, source text, the same after linking a definer>>.     *)
EXTENDS TraceBase, Asm, Link
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF e[2] # "equal" THEN {e[2]}
  ELSE IF e[3] # e[4] THEN {"reads back as something else: part " \o ToString({j \in DOMAIN e[3] : e[3][j] # e[4][j]})}
  ELSE IF e[1] = <<>> THEN {}      \* a sweep over all addresses, words or spellings: too large to look into
  ELSE LET ps == [f \in DOMAIN e[1] |-> ParseText(e[1][f])] IN
       IF \E f \in DOMAIN ps : ps[f][1] # "ok" THEN {}
       ELSE LET os == [f \in DOMAIN ps |-> Asm(ps[f][2], e[1][f])] IN
            IF \E f \in DOMAIN os : os[f].unspec \/ os[f].errs # {} THEN {}
            ELSE IF ~AllLinkable(os) THEN {}
            ELSE LET o == LinkAll(os) IN
                 (IF {e[4][1][j] : j \in DOMAIN e[4][1]} = o.init THEN {} ELSE {"words"})
                 \cup (IF {e[4][2][j] : j \in DOMAIN e[4][2]} = Runs(o.runs) THEN {} ELSE {"uninitialised words"})
============================================================================
