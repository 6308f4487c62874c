-------------------------------- MODULE Asm --------------------------------
(* The two-pass assembler as a function of the statements (Parse.tla form,  *)
(* with spans): the set of well-formedness conditions a program violates    *)
(* and, when there are none, the object file.                               *)
EXTENDS Parse, Isa, SequencesExt

IoStart == 65024            \* xFE00
Size(n) ==
  CASE n[1] \in {".ORIG", ".END", ".EXTERNAL"} -> 0
    [] n[1] = ".BLKW" -> n[2]
    [] n[1] = ".STRINGZ" -> Len(n[2]) + 1
    [] OTHER -> 1
Occupies(n) == Size(n) > 0

\* --- pass 1: placement.  addr[i] = address of statement i, -1 outside blocks
Place0 == [open |-> FALSE, org |-> 0, lc |-> 0, errs |-> {}, outlab |-> {}, addr |-> <<>>, blocks |-> <<>>, binds |-> <<>>]
PlaceSt(a0, st) ==
  LET n == st[2]
      lbs == IF a0.open THEN [k \in DOMAIN st[1] |-> <<UpSeq(st[1][k][1]), a0.lc, FALSE, st[1][k][2], st[1][k][3]>>] ELSE <<>>
      ext == IF n[1] = ".EXTERNAL" THEN <<<<UpSeq(n[2][2]), 0, TRUE, n[2][3], n[2][4]>>>> ELSE <<>>
      outl == IF ~a0.open /\ st[1] # <<>> THEN {"UndetAddrLabel"} ELSE {}
      a == [a0 EXCEPT !.binds = @ \o lbs \o ext, !.errs = @ \cup outl,
                       !.outlab = @ \cup (IF a0.open THEN {} ELSE {UpSeq(st[1][k][1]) : k \in DOMAIN st[1]})]
  IN CASE n[1] = ".ORIG" ->
            [a EXCEPT !.open = TRUE, !.org = n[2], !.lc = n[2], !.addr = Append(@, -1),
                      !.errs = @ \cup (IF a.open THEN {"OverlappingOrig"} ELSE {}),
                      !.blocks = IF a.open THEN Append(@, <<a.org, a.lc>>) ELSE @]
       [] n[1] = ".END" ->
            [a EXCEPT !.open = FALSE, !.addr = Append(@, -1),
                      !.errs = @ \cup (IF a.open THEN {} ELSE {"UnopenedOrig"}),
                      !.blocks = IF a.open THEN Append(@, <<a.org, a.lc>>) ELSE @]
       [] n[1] = ".EXTERNAL" -> [a EXCEPT !.addr = Append(@, -1)]
       [] OTHER ->
            [a EXCEPT !.addr = Append(@, IF a.open THEN a.lc ELSE -1), !.lc = @ + Size(n),
                      !.errs = @ \cup (IF a.open THEN {} ELSE {"UndetAddrStmt"})]
Place(ss) ==
  LET a == FoldLeft(PlaceSt, Place0, ss) IN
  IF a.open THEN [a EXCEPT !.errs = @ \cup {"UnclosedOrig"}, !.blocks = Append(@, <<a.org, a.lc>>)] ELSE a

NonEmpty(b) == b[1] < b[2]
Overlap(b, c) == NonEmpty(b) /\ NonEmpty(c) /\ b[1] < c[2] /\ c[1] < b[2]
BlockErrs(bs) ==
  (IF \E i \in DOMAIN bs : NonEmpty(bs[i]) /\ bs[i][2] > IoStart THEN {"BlockInIO"} ELSE {})
  \cup (IF \E i \in DOMAIN bs : NonEmpty(bs[i]) /\ bs[i][2] > W THEN {"WrappingBlock"} ELSE {})
  \cup (IF \E i, j \in DOMAIN bs : i < j /\ Overlap(bs[i], bs[j]) THEN {"OverlappingBlocks"} ELSE {})

\* --- labels
Names(binds) == {binds[k][1] : k \in DOMAIN binds}
Conflicts(binds) == {nm \in Names(binds) : \E i, j \in DOMAIN binds : binds[i][1] = nm /\ binds[j][1] = nm /\ binds[i][2] # binds[j][2]}
\* declared external and defined, both at address 0: the flag is not specified
FlagUnspec(binds) == \E i, j \in DOMAIN binds : binds[i][1] = binds[j][1] /\ binds[i][3] # binds[j][3] /\ binds[i][2] = binds[j][2]
FirstBind(binds, nm) == binds[CHOOSE i \in DOMAIN binds : binds[i][1] = nm /\ \A j \in 1..(i - 1) : binds[j][1] # nm]

\* --- operands
PcBits(n) == IF n[1] = "JSR" THEN 11 ELSE 9
HasPc(n) == n[1] \in {"BR", "NOP", "JSR", "LD", "LDI", "LEA", "ST", "STI"}
LastOp(n) == n[Len(n)]
LabelUse(n) == (HasPc(n) \/ n[1] = ".FILL") /\ LastOp(n)[1] = "l"
UseErr(binds, n, at) ==         \* "" | error kind | "wrap" (in range only modulo 2^16)
  IF ~LabelUse(n) THEN ""
  ELSE LET nm == UpSeq(LastOp(n)[2]) IN
       IF nm \notin Names(binds) THEN "CouldNotFindLabel"
       ELSE IF n[1] = ".FILL" THEN ""
       ELSE LET b == FirstBind(binds, nm)  d == b[2] - (at + 1) IN
            IF b[3] THEN "OffsetExternal"
            ELSE IF FitsS(d, PcBits(n)) THEN ""
            ELSE IF FitsS(Signed(Wrap(d)), PcBits(n)) THEN "wrap" ELSE "OffsetNewErr"
\* operand value: number, or label address relative to the following word
OpVal(binds, n, at) ==
  LET o == LastOp(n) IN
  IF o[1] = "o" THEN o[2]
  ELSE LET b == FirstBind(binds, UpSeq(o[2])) IN
       IF n[1] = ".FILL" THEN b[2] ELSE Signed(Wrap(b[2] - (at + 1)))

TrapOf == ("GETC" :> 32) @@ ("OUT" :> 33) @@ ("PUTC" :> 33) @@ ("PUTS" :> 34) @@ ("IN" :> 35) @@ ("PUTSP" :> 36) @@ ("HALT" :> 37)
Sim(binds, n, at) ==
  CASE n[1] = "BR" -> <<"BR", n[2], OpVal(binds, n, at)>>
    [] n[1] = "NOP" -> <<"BR", 0, OpVal(binds, n, at)>>
    [] n[1] = "JSR" -> <<"JSR", 1, OpVal(binds, n, at)>>
    [] n[1] = "JSRR" -> <<"JSR", 0, n[2]>>
    [] n[1] \in PcOps -> <<n[1], n[2], OpVal(binds, n, at)>>
    [] n[1] = "RET" -> <<"JMP", 7>>
    [] n[1] \in DOMAIN TrapOf -> <<"TRAP", TrapOf[n[1]]>>
    [] OTHER -> n
\* initialised words of a statement: <<address, value>>
Cells(binds, n, at) ==
  CASE n[1] = ".BLKW" -> {}
    [] n[1] = ".STRINGZ" -> {<<at + k - 1, IF k <= Len(n[2]) THEN n[2][k] ELSE 0>> : k \in 1..(Len(n[2]) + 1)}
    [] n[1] = ".FILL" -> {<<at, OpVal(binds, n, at)>>}
    [] OTHER -> {<<at, Encode(Sim(binds, n, at))>>}

\* maximal runs of a set of intervals <<lo, hi>>
RECURSIVE RunEnd(_, _)
RunEnd(iv, hi) == IF \E x \in iv : x[1] = hi THEN RunEnd(iv, (CHOOSE x \in iv : x[1] = hi)[2]) ELSE hi
Runs(iv) == {<<x[1], RunEnd(iv, x[2])>> : x \in {y \in iv : \A z \in iv : z[2] # y[1]}}

LineOf(s, off) == Cardinality({k \in 1..off : s[k] = 10})      \* newlines before byte offset

\* --- the whole thing.  s: source text (only for the line table)
Asm(ss, s) ==
  LET p == Place(ss)
      placed == {i \in DOMAIN ss : p.addr[i] # -1}
      uses == {UseErr(p.binds, ss[i][2], p.addr[i]) : i \in placed}
      errs == p.errs \cup BlockErrs(p.blocks) \cup (IF Conflicts(p.binds) # {} THEN {"OverlappingLabels"} ELSE {})
              \cup (uses \ {"", "wrap"})
      binds == p.binds
  IN [ errs   |-> errs,
       unspec |-> FlagUnspec(binds) \/ "wrap" \in uses,
       place  |-> p,
       blocks |-> {p.blocks[k] : k \in {j \in DOMAIN p.blocks : NonEmpty(p.blocks[j])}},
       init   |-> IF errs # {} THEN {} ELSE UNION {Cells(binds, ss[i][2], p.addr[i]) : i \in placed},
       runs   |-> IF errs # {} THEN {} ELSE Runs({<<p.addr[i], p.addr[i] + Size(ss[i][2])>> : i \in {j \in placed : ss[j][2][1] = ".BLKW" /\ Occupies(ss[j][2])}}),
       labels |-> {LET b == FirstBind(binds, nm) IN <<nm, b[2], b[3]>> : nm \in Names(binds)},
       rel    |-> {<<p.addr[i], UpSeq(LastOp(ss[i][2])[2])>> :
                    i \in {j \in placed : ss[j][2][1] = ".FILL" /\ LabelUse(ss[j][2])
                              /\ UpSeq(LastOp(ss[j][2])[2]) \in Names(binds) /\ FirstBind(binds, UpSeq(LastOp(ss[j][2])[2]))[3]}},
       lines  |-> {<<LineOf(s, ss[i][3]), p.addr[i]>> : i \in placed} ]
=============================================================================
