------------------------------- MODULE T_C21 -------------------------------
(* <<texts of the files, linked?, load result, words>>: the files were linked *)
(* (or, if one, just assembled) and the result loaded.  load result = "ok",   *)
(* "UnresolvedExternal" or another error; words = <<address, word in the      *)
(* object file (-1: none), word in memory>> of every .fill of a label.        *)
EXTENDS TraceBase, Asm, Link
MM(i, k) ==
  LET e == Traces[i].ev[k]
      ps == [f \in DOMAIN e[1] |-> ParseText(e[1][f])] IN
  IF \E f \in DOMAIN ps : ps[f][1] # "ok" THEN {}
  ELSE LET os == [f \in DOMAIN ps |-> Asm(ps[f][2], e[1][f])] IN
       IF \E f \in DOMAIN os : os[f].unspec \/ os[f].errs # {} THEN {}
       ELSE IF ~AllLinkable(os) THEN {}          \* conflicts: not this property (and unknowable without symbol tables)
       ELSE LET o == LinkAll(os)
                refs == UNION {os[f].rel : f \in DOMAIN os}
                pend == {r[1] : r \in o.rel}
                wordAt(a) == (CHOOSE c \in o.init : c[1] = a)[2] IN
            IF ~e[2] THEN {"link fails"}
            ELSE (IF pend # {} /\ e[3] # "UnresolvedExternal" THEN {"unresolved reference loaded: " \o e[3]} ELSE {})
              \cup (IF (\A x \in o.labels : ~x[3]) /\ e[3] # "ok" THEN {"load fails: " \o e[3]} ELSE {})
              \cup (IF \A r \in refs : r[1] \in {e[4][j][1] : j \in DOMAIN e[4]} THEN {} ELSE {"generator"})
              \cup (IF \A j \in DOMAIN e[4] : LET w == e[4][j] IN
                         (w[1] \in {r[1] : r \in refs} /\ w[1] \notin pend) =>
                            /\ w[2] = wordAt(w[1])
                            /\ e[3] = "ok" => w[3] = wordAt(w[1])
                    THEN {} ELSE {"reference does not hold the label's address"})
============================================================================
