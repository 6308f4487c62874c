------------------------------- MODULE T_C29 -------------------------------
(* New machines: the OS image (assembled from its text by the specification *)
(* itself) and the I/O page.  Loads: what the blocks' cells hold afterwards *)
(* (-1: not initialised), which words changed at all, registers and PC.     *)
EXTENDS TraceBase, Lifecycle, Asm
\* --- new machines
Has(ws) == {<<ws[j][1], ws[j][2]>> : j \in DOMAIN ws}
New(e) ==
  LET p == ParseText(e.text)
      img == Asm(p[2], e.text).init IN
  IF e.text = <<>> \/ p[1] # "ok" THEN {}
  ELSE UNION {(IF img \subseteq Has(e.mems[j].ws) THEN {} ELSE {"OS image"}) : j \in DOMAIN e.mems}
ZeroIo(e) == UNION {IF \A k \in DOMAIN e.mems[j].io : e.mems[j].io[k][3] = 0 THEN {} ELSE {"I/O page"} : j \in DOMAIN e.mems}
\* --- loads
LoadEv(e) ==
  (IF e.res = "ok" THEN {} ELSE {e.res})
  \cup (IF \A j \in DOMAIN e.blocks : Join(e.blocks[j][2], 1) = e.cells[j] THEN {} ELSE {"words loaded"})
  \cup (IF \A j \in DOMAIN e.diff : \E b \in DOMAIN e.blocks : Within(e.blocks[b], e.diff[j][1], e.diff[j][1], 65536) THEN {} ELSE {"other words"})
  \cup (IF \A j \in DOMAIN e.diff : e.diff[j][1] = e.diff[j][2]
            \/ \A a \in e.diff[j][1]..e.diff[j][2] : \E b \in DOMAIN e.blocks : Within(e.blocks[b], a, a, 65536) THEN {} ELSE {"other words"})
  \cup (IF e.pre = e.post THEN {} ELSE {"registers"})
MM(i, k) == LET e == Traces[i].ev[k] IN IF "mems" \in DOMAIN e THEN New(e) \cup ZeroIo(e) 
            ELSE IF "off" \in DOMAIN e THEN (IF e.res = "ok" /\ e.off = <<<<0, 65023, 0>>>> THEN {} ELSE {"words loaded"})    \* word minus expected word, by address
            ELSE LoadEv(e)
============================================================================
