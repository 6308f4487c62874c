------------------------------- MODULE Parse -------------------------------
(* Statements of an LC-3 program.                                           *)
(* A statement is <<labels, nucleus, lo, hi>>: labels = sequence of         *)
(* <<name bytes, lo, hi>>, nucleus = operation with operands, lo..hi = span *)
(* of the operation's text.  Operations (operands that may be labels are    *)
(* <<"o", n>> or <<"l", name, lo, hi>>):                                    *)
(*  <<"ADD"|"AND", dr, sr, 0|1, v>> <<"BR"|"NOP".., cc, off>> ...           *)
EXTENDS Lex, Word16

Bad == <<"bad">>
Unspec == <<"unspec">>

Ty(ts, p) == IF p <= Len(ts) THEN ts[p][1] ELSE "EOF"

\* operand of kind kd at position p: <<TRUE, value, next position>> or <<FALSE>>
\*   R register; C comma; S(n) signed n-bit; I register-or-imm5; P(n) PC offset or label
NumOk(v, n, signed) ==      \* v = <<"u"|"s", x>>
  IF signed THEN FitsS(v[2], n) ELSE FitsU(v[2], n)

OpReg(ts, p) == IF Ty(ts, p) = "REG" THEN <<TRUE, ts[p][2], p + 1>> ELSE <<FALSE>>
OpSig(ts, p, n) == IF Ty(ts, p) = "NUM" /\ NumOk(ts[p][2], n, TRUE) THEN <<TRUE, ts[p][2][2], p + 1>> ELSE <<FALSE>>
OpUns(ts, p, n) == IF Ty(ts, p) = "NUM" /\ NumOk(ts[p][2], n, FALSE) THEN <<TRUE, ts[p][2][2], p + 1>> ELSE <<FALSE>>
LabelOp(t) == <<"l", t[2], t[3], t[4]>>
OpPc(ts, p, n) ==
  IF Ty(ts, p) = "ID" THEN <<TRUE, LabelOp(ts[p]), p + 1>>
  ELSE LET o == OpSig(ts, p, n) IN IF o[1] THEN <<TRUE, <<"o", o[2]>>, p + 1>> ELSE <<FALSE>>
OpFill(ts, p) ==
  IF Ty(ts, p) = "ID" THEN <<TRUE, LabelOp(ts[p]), p + 1>>
  ELSE IF Ty(ts, p) = "NUM" THEN <<TRUE, <<"o", Wrap(ts[p][2][2])>>, p + 1>> ELSE <<FALSE>>
Comma(ts, p) == Ty(ts, p) = "COMMA"

\* <<TRUE, nucleus, next>> or <<FALSE>>
N1(name, o) == IF o[1] THEN <<TRUE, <<name, o[2]>>, o[3]>> ELSE <<FALSE>>
\* reg , X
Reg2(ts, p, name, op2(_)) ==
  LET a == OpReg(ts, p) IN
  IF ~a[1] \/ ~Comma(ts, a[3]) THEN <<FALSE>>
  ELSE LET b == op2(a[3] + 1) IN IF b[1] THEN <<TRUE, <<name, a[2], b[2]>>, b[3]>> ELSE <<FALSE>>
\* reg , reg , X
Reg3(ts, p, name, op3(_)) ==
  LET a == OpReg(ts, p) IN
  IF ~a[1] \/ ~Comma(ts, a[3]) THEN <<FALSE>>
  ELSE LET b == OpReg(ts, a[3] + 1) IN
       IF ~b[1] \/ ~Comma(ts, b[3]) THEN <<FALSE>>
       ELSE LET c == op3(b[3] + 1) IN IF c[1] THEN <<TRUE, <<name, a[2], b[2]>> \o c[2], c[3]>> ELSE <<FALSE>>
OpImmReg(ts, p) ==
  LET r == OpReg(ts, p)  i == OpSig(ts, p, 5) IN
  IF r[1] THEN <<TRUE, <<0, r[2]>>, p + 1>> ELSE IF i[1] THEN <<TRUE, <<1, i[2]>>, p + 1>> ELSE <<FALSE>>
BrCc(k) == CASE k = "BR" -> 7 [] k = "BRNZP" -> 7 [] k = "BRN" -> 4 [] k = "BRZ" -> 2 [] k = "BRP" -> 1
             [] k = "BRNZ" -> 6 [] k = "BRNP" -> 5 [] k = "BRZP" -> 3 [] OTHER -> 0

Instr(ts, p) ==
  LET k == ts[p][2]  q == p + 1 IN
  CASE k \in {"ADD", "AND"} -> Reg3(ts, q, k, LAMBDA x : OpImmReg(ts, x))
    [] k \in {"LDR", "STR"} -> Reg3(ts, q, k, LAMBDA x : LET o == OpSig(ts, x, 6) IN
                                      IF o[1] THEN <<TRUE, <<o[2]>>, o[3]>> ELSE <<FALSE>>)
    [] k \in {"LD", "LDI", "LEA", "ST", "STI"} -> Reg2(ts, q, k, LAMBDA x : OpPc(ts, x, 9))
    [] k = "NOT" -> Reg2(ts, q, k, LAMBDA x : OpReg(ts, x))
    [] k \in {"JMP", "JSRR"} -> N1(k, OpReg(ts, q))
    [] k = "JSR" -> N1(k, OpPc(ts, q, 11))
    [] k = "TRAP" -> N1(k, OpUns(ts, q, 8))
    [] k = "NOP" -> IF Ty(ts, q) \in {"NUM", "ID"} THEN N1(k, OpPc(ts, q, 9))
                    ELSE <<TRUE, <<k, <<"o", 0>>>>, q>>
    [] BrCc(k) # 0 -> LET o == OpPc(ts, q, 9) IN
                      IF o[1] THEN <<TRUE, <<"BR", BrCc(k), o[2]>>, o[3]>> ELSE <<FALSE>>
    [] OTHER -> <<TRUE, <<k>>, q>>

Direc(ts, p) ==
  LET d == ts[p][2]  q == p + 1 IN
  CASE d = "ORIG" -> N1(".ORIG", OpUns(ts, q, 16))
    [] d = "FILL" -> N1(".FILL", OpFill(ts, q))
    [] d = "BLKW" -> LET o == OpUns(ts, q, 16) IN IF o[1] /\ o[2] # 0 THEN N1(".BLKW", o) ELSE <<FALSE>>
    [] d = "STRINGZ" -> IF Ty(ts, q) = "STR" THEN <<TRUE, <<".STRINGZ", ts[q][2]>>, q + 1>> ELSE <<FALSE>>
    [] d = "END" -> <<TRUE, <<".END">>, q>>
    [] d = "EXTERNAL" -> IF Ty(ts, q) = "ID" THEN <<TRUE, <<".EXTERNAL", LabelOp(ts[q])>>, q + 1>> ELSE <<FALSE>>
    [] OTHER -> <<FALSE>>

RECURSIVE SkipNL(_, _)
SkipNL(ts, p) == IF Ty(ts, p) = "NL" THEN SkipNL(ts, p + 1) ELSE p

RECURSIVE Labels(_, _, _)
\* labels (each with an optional colon, on lines of their own or not) before the operation
Labels(ts, p, acc) ==
  CASE Ty(ts, p) = "NL" -> Labels(ts, p + 1, acc)
    [] Ty(ts, p) = "ID" -> Labels(ts, IF Ty(ts, p + 1) = "COLON" THEN p + 2 ELSE p + 1,
                                  Append(acc, <<ts[p][2], ts[p][3], ts[p][4]>>))
    [] OTHER -> <<acc, p>>

RECURSIVE Stmts(_, _, _)
Stmts(ts, p0, acc) ==
  LET p == SkipNL(ts, p0) IN
  IF p > Len(ts) THEN <<"ok", acc>>
  ELSE LET lb == Labels(ts, p, <<>>)
           q == lb[2]
           o == CASE Ty(ts, q) = "KW" -> Instr(ts, q) [] Ty(ts, q) = "DIR" -> Direc(ts, q) [] OTHER -> <<FALSE>>
       IN IF ~o[1] THEN Bad
          ELSE IF Ty(ts, o[3]) \notin {"NL", "EOF"} THEN Bad
          ELSE Stmts(ts, o[3], Append(acc, <<lb[1], o[2], ts[q][3], ts[o[3] - 1][4]>>))

\* <<"ok", statements>>, <<"bad">> (not a program) or <<"unspec">>
ParseText(s) ==
  LET ts == Lex(s) IN
  IF ts # <<>> /\ ts[Len(ts)][1] = "ANY" THEN Unspec
  ELSE IF ts # <<>> /\ ts[Len(ts)][1] = "ERR" THEN Bad
  ELSE Stmts(ts, 1, <<>>)

\* without spans
StripOp(x) == IF x[1] = "l" THEN <<"l", x[2]>> ELSE x
StripN(n) ==
  CASE n[1] \in {"BR", "LD", "LDI", "LEA", "ST", "STI"} -> <<n[1], n[2], StripOp(n[3])>>
    [] n[1] \in {"JSR", "NOP", ".FILL", ".EXTERNAL"} -> <<n[1], StripOp(n[2])>>
    [] OTHER -> n
Strip(st) == <<[i \in DOMAIN st[1] |-> st[1][i][1]], StripN(st[2])>>
StripAll(ss) == [i \in DOMAIN ss |-> Strip(ss[i])]
=============================================================================
