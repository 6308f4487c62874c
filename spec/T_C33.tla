------------------------------- MODULE T_C33 -------------------------------
(* "ops": accesses to the real devices while another thread holds their     *)
(* buffers.  "prog": a program that waits for readiness, run under such     *)
(* contention: the bytes fed to it, what it received, what is left, and the *)
(* display.  Its script: "echo" n bytes, "take" n bytes, "put" a text.      *)
EXTENDS TraceBase, Contention
RECURSIVE Walk(_, _, _)
Walk(ops, k, s) ==
  IF k > Len(ops) THEN {}
  ELSE LET p == ops[k] IN
  CASE p[1] = "hold" -> Walk(ops, k + 1, Hold(s, p[2], p[3]))
    [] p[1] = "feed" -> Walk(ops, k + 1, Feed(s, p[2]))
    [] p[1] = "kbsr" -> (IF p[2] \in KbReady(s) THEN Walk(ops, k + 1, KbStatus(s, p[2])) ELSE {<<k, "keyboard status">>})
    [] p[1] = "dsr" -> (IF p[2] \in DsReady(s) THEN Walk(ops, k + 1, DsStatus(s, p[2])) ELSE {<<k, "display status">>})
    [] p[1] = "kbdr" -> (LET n == {o \in KbTake(s) : o[1] = p[2] /\ o[2].q = p[3]} IN
         IF n = {} THEN {<<k, IF \E o \in KbTake(s) : o[1] = p[2] THEN "queue after the byte" ELSE "byte taken">>} ELSE Walk(ops, k + 1, (CHOOSE o \in n : TRUE)[2]))
    [] p[1] = "ddr" -> (LET n == {o \in DsPut(s, p[2]) : o.out = p[3]} IN
         IF n = {} THEN {<<k, "display">>} ELSE Walk(ops, k + 1, CHOOSE o \in n : TRUE))
    [] p[1] = "quiet" -> (IF s.q = p[2] /\ s.out = p[3] THEN Walk(ops, k + 1, s) ELSE {<<k, "buffers">>})
    [] OTHER -> {p[1]}
RECURSIVE Wants(_, _, _, _)
Wants(sc, k, got, n) ==
  IF k > Len(sc) THEN <<>>
  ELSE CASE sc[k][1] = "echo" -> SubSeq(got, n + 1, n + sc[k][2]) \o Wants(sc, k + 1, got, n + sc[k][2])
         [] sc[k][1] = "take" -> Wants(sc, k + 1, got, n + sc[k][2])
         [] OTHER -> sc[k][2] \o Wants(sc, k + 1, got, n)
Prog(e) ==
  (IF e.res = "halt" THEN {} ELSE {"does not end: " \o e.res})
  \cup (IF e.got \o e.left = e.fed THEN {} ELSE {"bytes received"})
  \cup (IF e.out = Wants(e.script, 1, e.got, 0) THEN {} ELSE {"display"})
MM(i, k) == LET e == Traces[i].ev[k] IN IF "ops" \in DOMAIN e THEN Walk(e.ops, 1, Start(<<>>)) ELSE Prog(e)
============================================================================
