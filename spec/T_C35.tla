------------------------------- MODULE T_C35 -------------------------------
(* Results over all values, run-length compressed by the harness:          *)
(* <<lo, hi, status, d>>: for every x in lo..hi, status 1 = the offset     *)
(* holds x + d; 0 = rejected with error code d; 2 = panic.  The runs of a  *)
(* trace are consecutive; the first starts where the previous trace ended. *)
EXTENDS TraceBase, Offsets
Same(i, j) == Traces[i].kind = Traces[j].kind /\ Traces[i].n = Traces[j].n
              /\ Traces[i].signed = Traces[j].signed
Last(i) == Traces[i].ev[Len(Traces[i].ev)]
Begin(i, k) == IF k > 1 THEN Traces[i].ev[k-1][2] + 1
               ELSE IF i > 1 /\ Same(i, i-1) THEN Last(i-1)[2] + 1
               ELSE Traces[i].lo
MM(i, k) == LET T == Traces[i]  e == T.ev[k] IN
  (IF e[1] = Begin(i, k) THEN {} ELSE {"gap"}) \cup
  (IF (k = Len(T.ev) /\ (i = Len(Traces) \/ ~Same(i, i+1))) => e[2] = T.hi THEN {} ELSE {"gap at end"}) \cup
  (IF T.kind = "new"
   THEN IF \A x \in e[1]..e[2] :
             IF Fits(x, T.n, T.signed) THEN e[3] = 1 /\ e[4] = 0 ELSE e[3] = 0
        THEN {} ELSE {"new"}
   ELSE IF \A x \in e[1]..e[2] : e[3] = 1 /\ x + e[4] = Trunc(x, T.n, T.signed)
        THEN {} ELSE {"truncating new"})
============================================================================
