------------------------------- MODULE T_C32 -------------------------------
(* Sequences of configuration and access at the I/O addresses:              *)
(*  <<"add", name, ports, id or -1>>  <<"rem", id>>                         *)
(*  <<"fix", id, kind, name, bytes>>  keyboard or display replaced          *)
(*  <<"map", address, register, result>>  <<"unmap", address, result>>      *)
(*  <<"rd", address, effects, value, calls, observation>>                   *)
(*  <<"wr", address, word, calls, observation>>                             *)
(*  <<"bulk", ids>> many devices without ports added                        *)
(*  <<"reg", register, value>> a register set by the host                   *)
(*  <<"poll", names of devices asked>>                                      *)
(* An observation: [m: the word in memory, other: other I/O words changed,  *)
(* reg: PC, PSR, MCR, buf: buffers].                                        *)
EXTENDS TraceBase, Ports
Set(q) == {q[j] : j \in DOMAIN q}
\* a read access looks at the world before it, a program's after the fetch
\* what memory holds behind a register is not said
Adopt(s, a, o) == IF Reached(s, a)[1] = "ireg" THEN [s EXCEPT !.mem = (a :> o.m) @@ @] ELSE s
Observed(s, a, o) ==
  (IF Reached(s, a)[1] = "ireg" \/ o.m = Mem(s, a) THEN {} ELSE {"memory at the port"})
  \cup (IF o.other = 0 THEN {} ELSE {"memory elsewhere"})
  \cup (IF o.reg = <<s.reg.PC, s.reg.PSR, s.reg.MCR>> THEN {} ELSE {"internal registers"})
  \cup (IF \A j \in DOMAIN o.buf : s.buf[o.buf[j][1]] = o.buf[j][2] THEN {} ELSE {"buffers"})
Calls(want, got) == IF got = (IF want = <<>> THEN <<>> ELSE <<want>>) THEN {} ELSE {"device calls"}
AnsOf(log) == IF log = <<>> THEN -1 ELSE IF log[1][1] \in {"r", "q"} THEN log[1][4] ELSE -1
AccOf(log) == IF log = <<>> THEN FALSE ELSE IF log[1][1] = "w" THEN log[1][5] ELSE FALSE
Live(s) == {s.dev[id][2] : id \in {x \in DOMAIN s.dev : s.dev[x][1] = "rec"}}
RECURSIVE Walk(_, _, _)
Walk(ops, k, s) ==
  IF k > Len(ops) THEN {}
  ELSE LET p == ops[k]
           bad(x) == {<<k, p[1], y>> : y \in x} IN
  CASE p[1] = "add" ->
       (LET ok == CanAdd(s, Set(p[3])) IN
        IF ok # (p[4] >= 0) THEN bad({IF ok THEN "refused" ELSE "accepted"})
        ELSE IF ~ok THEN Walk(ops, k + 1, s)
        ELSE IF p[4] \in s.used THEN bad({"id used before"})
        ELSE Walk(ops, k + 1, Add(s, p[4], <<"rec", p[2]>>, Set(p[3]))))
    [] p[1] = "bulk" ->
       (IF Cardinality(Set(p[2])) # Len(p[2]) \/ Set(p[2]) \cap s.used # {} THEN bad({"id used before"})
        ELSE Walk(ops, k + 1, [s EXCEPT !.used = @ \cup Set(p[2])]))
    [] p[1] = "rem" -> Walk(ops, k + 1, IF p[2] \in DOMAIN s.dev THEN Remove(s, p[2]) ELSE s)
    [] p[1] = "fix" -> Walk(ops, k + 1, Replace(IF p[3] = "buf" THEN [s EXCEPT !.buf = (p[4] :> p[5]) @@ @] ELSE s, p[2], <<p[3], p[4]>>))
    [] p[1] = "map" ->
       (LET free == p[2] >= IoLo /\ p[2] \notin DOMAIN s.ireg
            \* mapping a register over a device may be refused
            may == free /\ p[2] \in DOMAIN s.own IN
        IF p[4] # "ok" /\ (~free \/ may) THEN
          (IF (p[4] = "range") # (p[2] < IoLo) THEN bad({"reason"}) ELSE Walk(ops, k + 1, s))
        ELSE IF p[4] = "ok" /\ free THEN Walk(ops, k + 1, Map(s, p[2], p[3]))
        ELSE bad({IF free THEN "refused" ELSE "accepted"}))
    [] p[1] = "unmap" ->
       (IF p[3] # (p[2] \in DOMAIN s.ireg) THEN bad({"result"}) ELSE Walk(ops, k + 1, Unmap(s, p[2])))
    [] p[1] = "reg" -> Walk(ops, k + 1, RegSet(s, p[2], p[3]))
    [] p[1] = "poll" -> (IF Set(p[2]) \subseteq Live(s) THEN Walk(ops, k + 1, s) ELSE bad({"a removed device was asked"}))
    [] p[1] = "rd" ->
       (LET x == Rd(s, p[2], p[3], AnsOf(p[5]))
            e == (IF x.v = p[4] THEN {} ELSE {"value"}) \cup Calls(x.call, p[5]) \cup Observed(x.s, p[2], p[6]) IN
        IF e = {} THEN Walk(ops, k + 1, Adopt(x.s, p[2], p[6])) ELSE bad(e))
    [] p[1] = "wr" ->
       (LET x == Wr(s, p[2], p[3], AccOf(p[4]))
            e == Calls(x.call, p[4]) \cup Observed(x.s, p[2], p[5]) IN
        IF e = {} THEN Walk(ops, k + 1, Adopt(x.s, p[2], p[5])) ELSE bad(e))
    [] OTHER -> {p[1]}
MM(i, k) == LET e == Traces[i].ev[k] IN Walk(e.ops, 1, Init0)
============================================================================
