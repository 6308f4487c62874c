------------------------------- MODULE T_C26 -------------------------------
(* <<"asm", text, error kind, first span, spans>>, spans = <<lo, hi>>, or    *)
(* <<"asmname", text, error kind, first span, spans, offending spelling>> or *)
(* <<"link", kind, number of spans>> or <<"panic", what>>                    *)
EXTENDS TraceBase, Asm
Slice(s, lo, hi) == SubSeq(s, lo + 1, hi)
\* names a label error of this kind may be about
Offending(ss, o, kd) ==
  LET p == o.place  placed == {i \in DOMAIN ss : p.addr[i] # -1} IN
  CASE kd = "UndetAddrLabel" ->
         p.outlab
    [] kd = "OverlappingLabels" -> Conflicts(p.binds)
    [] kd \in {"OffsetNewErr", "OffsetExternal", "CouldNotFindLabel"} ->
         {UpSeq(LastOp(ss[i][2])[2]) : i \in {j \in placed : UseErr(p.binds, ss[j][2], p.addr[j]) = kd}}
LabelKinds == {"UndetAddrLabel", "OverlappingLabels", "OffsetNewErr", "OffsetExternal", "CouldNotFindLabel"}
Inside(sp, s) == 0 <= sp[1] /\ sp[1] <= sp[2] /\ sp[2] <= Len(s)
AsmMM(s, kd, first, spans, names) ==
  LET all == {first} \cup {spans[j] : j \in DOMAIN spans} IN
  (IF Len(spans) = 0 THEN {"no spans"} ELSE IF first # spans[1] THEN {"first span"} ELSE {})
  \cup (IF \A sp \in all : Inside(sp, s) THEN
          (IF kd \notin LabelKinds THEN {}
           ELSE LET said == {UpSeq(Slice(s, sp[1], sp[2])) : sp \in all} IN
                (IF said \subseteq names THEN {} ELSE {"span does not cover the offending label"})
                \cup (IF kd = "OverlappingLabels" /\ Cardinality(said) # 1 THEN {"spans of different labels"} ELSE {}))
        ELSE {"span outside the source"})
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  CASE e[1] = "panic" -> {"panic"}
    [] e[1] = "link" -> IF e[3] >= 1 THEN {} ELSE {"no spans"}
    [] e[1] = "asmname" -> AsmMM(e[2], e[3], e[4], e[5], {UpSeq(e[6])})
    [] e[1] = "asm" ->
         LET p == ParseText(e[2]) IN
         IF p[1] # "ok" THEN {}
         ELSE LET o == Asm(p[2], e[2]) IN
              IF o.unspec THEN {}
              ELSE AsmMM(e[2], e[3], e[4], e[5], IF e[3] \in LabelKinds THEN Offending(p[2], o, e[3]) ELSE {})
============================================================================
