------------------------------- MODULE T_C22 -------------------------------
(* <<"set", texts of the files, lines, labels>> of the linked file:          *)
(* lines = <<address, text of its line or <<-1>>>> for every address of the   *)
(* image; labels = <<name, text of its span, bytes around it, text of the     *)
(* line the span starts on>>.                                                *)
(* <<"raw", spelling, text of the span>>: a label outside the grammar.        *)
EXTENDS TraceBase, Asm, Link, Source, Sweep
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  IF e[1] = "raw" THEN (IF e[2] = e[3] THEN {} ELSE {"span of a label"})
  ELSE IF e[1] = "linked" THEN LinkedMM(e)
  ELSE LET ps == [f \in DOMAIN e[2] |-> ParseText(e[2][f])] IN
  IF \E f \in DOMAIN ps : ps[f][1] # "ok" THEN {}
  ELSE LET os == [f \in DOMAIN ps |-> Asm(ps[f][2], e[2][f])] IN
       IF \E f \in DOMAIN os : os[f].unspec \/ os[f].errs # {} THEN {}
       ELSE IF ~AllLinkable(os) THEN {}
       ELSE LET fromFile(f, a) == {LineText(e[2][f], x[1]) : x \in {y \in os[f].lines : y[2] = a}}
                want(a) == UNION {fromFile(f, a) : f \in DOMAIN os}
                binds(nm) == UNION {{<<f, j>> : j \in {q \in DOMAIN os[f].place.binds : os[f].place.binds[q][1] = nm}} : f \in DOMAIN os}
                lineOfBind(b) == LET s == e[2][b[1]] IN LineText(s, LineAt(s, os[b[1]].place.binds[b[2]][4]))
            IN (IF \A j \in DOMAIN e[3] : LET q == e[3][j]  w == want(q[1]) IN
                     IF w = {} THEN q[2] = <<-1>> ELSE q[2] \in w
                THEN {} ELSE {"line of an address"})
               \cup (IF \A j \in DOMAIN e[4] : LET q == e[4][j] IN
                     /\ UpSeq(q[2]) = UpSeq(q[1])
                     /\ \A x \in {q[3][m] : m \in DOMAIN q[3]} : x \notin WordC
                     /\ q[4] \in {lineOfBind(b) : b \in binds(UpSeq(q[1]))}
                  THEN {} ELSE {"span of a label"})
============================================================================
