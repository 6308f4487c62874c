------------------------------- MODULE T_C20 -------------------------------
(* <<texts of the files, distinct outcomes>>: an outcome is <<an order that   *)
(* gave it, "ok", initialised words, uninitialised runs, labels>>, <<order,   *)
(* "err", kind>> or <<order, "panic", message>>.                              *)
EXTENDS TraceBase, Asm, Link
Has(x, what) == {x[j] : j \in DOMAIN x} = what
OutMM(r, ok, o) ==
  CASE r[2] = "panic" -> {"panic"}
    [] r[2] = "err" -> IF ok THEN {"link fails"} ELSE {}
    [] r[2] = "ok" -> IF ~ok THEN {"link succeeds"}
                      ELSE (IF Has(r[3], o.init) /\ Len(r[3]) = Cardinality(o.init) THEN {} ELSE {"words"})
                           \cup (IF Has(r[4], o.runs) THEN {} ELSE {"uninitialised words"})
                           \cup (IF Has(r[5], o.labels) THEN {} ELSE {"labels"})
MM(i, k) ==
  LET e == Traces[i].ev[k]
      ps == [f \in DOMAIN e[1] |-> ParseText(e[1][f])] IN
  IF \E f \in DOMAIN ps : ps[f][1] # "ok" THEN {}
  ELSE LET os == [f \in DOMAIN ps |-> Asm(ps[f][2], e[1][f])] IN
       IF \E f \in DOMAIN os : os[f].unspec \/ os[f].errs # {} THEN {}
       ELSE LET ok == AllLinkable(os)
                all == LinkAll(os)
                \* uninitialised runs may join across files
                want == [all EXCEPT !.runs = Runs(all.runs)] IN
            UNION {OutMM(e[2][j], ok, want) : j \in DOMAIN e[2]}
            \cup (IF Len(e[2]) > 1 /\ \E j \in DOMAIN e[2] : Tail(e[2][j]) # Tail(e[2][1]) THEN {"depends on the order"} ELSE {})
============================================================================
