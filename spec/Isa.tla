------------------------------- MODULE Isa -------------------------------
(* The LC-3 instruction set: instructions as tuples, their encodings, the  *)
(* set of canonical words, and decoding.                                   *)
(*   <<"BR",nzp,off9>> <<"ADD",dr,sr1,m,v>> <<"AND",dr,sr1,m,v>>           *)
(*        m = 0: v is a register, m = 1: v is a 5-bit signed immediate     *)
(*   <<"LD",r,off9>> LDI LEA ST STI, <<"LDR",r,b,off6>> STR                *)
(*   <<"JSR",1,off11>> <<"JSR",0,base>> <<"JMP",base>> <<"NOT",dr,sr>>     *)
(*   <<"RTI">> <<"TRAP",vect8>>                                            *)
EXTENDS Word16, FiniteSets

Regs == 0..7
S(n) == -P2(n - 1) .. (P2(n - 1) - 1)
U(n) == 0 .. (P2(n) - 1)

OpCode == [BR |-> 0, ADD |-> 1, LD |-> 2, ST |-> 3, JSR |-> 4, AND |-> 5,
           LDR |-> 6, STR |-> 7, RTI |-> 8, NOT |-> 9, LDI |-> 10, STI |-> 11,
           JMP |-> 12, RES |-> 13, LEA |-> 14, TRAP |-> 15]

\* The instructions a program can represent, family by family
FBr   == {<<"BR", c, o>> : c \in U(3), o \in S(9)}
FAluR == {<<op, d, s, 0, v>> : op \in {"ADD", "AND"}, d \in Regs, s \in Regs, v \in Regs}
FAluI == {<<op, d, s, 1, v>> : op \in {"ADD", "AND"}, d \in Regs, s \in Regs, v \in S(5)}
FPc(op) == {<<op, r, o>> : r \in Regs, o \in S(9)}
PcOps == {"LD", "LDI", "LEA", "ST", "STI"}
FBase == {<<op, r, b, o>> : op \in {"LDR", "STR"}, r \in Regs, b \in Regs, o \in S(6)}
FJsr  == {<<"JSR", 1, o>> : o \in S(11)}
FReg  == {<<"JSR", 0, b>> : b \in Regs} \cup {<<"JMP", b>> : b \in Regs}
FNot  == {<<"NOT", d, s>> : d \in Regs, s \in Regs}
FTrap == {<<"TRAP", v>> : v \in U(8)}

IsInstr(i) ==
  CASE i[1] = "BR" -> i[2] \in U(3) /\ i[3] \in S(9)
    [] i[1] \in {"ADD", "AND"} ->
         i[2] \in Regs /\ i[3] \in Regs /\ (IF i[4] = 1 THEN i[5] \in S(5) ELSE i[5] \in Regs)
    [] i[1] \in PcOps -> i[2] \in Regs /\ i[3] \in S(9)
    [] i[1] \in {"LDR", "STR"} -> i[2] \in Regs /\ i[3] \in Regs /\ i[4] \in S(6)
    [] i[1] = "JSR" -> IF i[2] = 1 THEN i[3] \in S(11) ELSE i[3] \in Regs
    [] i[1] = "JMP" -> i[2] \in Regs
    [] i[1] = "NOT" -> i[2] \in Regs /\ i[3] \in Regs
    [] i[1] = "RTI" -> TRUE
    [] i[1] = "TRAP" -> i[2] \in U(8)

Encode(i) ==
  LET op == OpCode[i[1]] * 4096 IN
  CASE i[1] \in {"BR", "LD", "LDI", "LEA", "ST", "STI"} -> op + i[2] * 512 + Pat(i[3], 9)
    [] i[1] \in {"ADD", "AND"} ->
         op + i[2] * 512 + i[3] * 64 + (IF i[4] = 1 THEN 32 + Pat(i[5], 5) ELSE i[5])
    [] i[1] \in {"LDR", "STR"} -> op + i[2] * 512 + i[3] * 64 + Pat(i[4], 6)
    [] i[1] = "JSR"  -> op + (IF i[2] = 1 THEN 2048 + Pat(i[3], 11) ELSE i[3] * 64)
    [] i[1] = "JMP"  -> op + i[2] * 64
    [] i[1] = "NOT"  -> op + i[2] * 512 + i[3] * 64 + 63
    [] i[1] = "RTI"  -> op
    [] i[1] = "TRAP" -> op + i[2]

OpName(w) ==
  CASE Bits(w, 15, 12) = 0 -> "BR"   [] Bits(w, 15, 12) = 1 -> "ADD"
    [] Bits(w, 15, 12) = 2 -> "LD"   [] Bits(w, 15, 12) = 3 -> "ST"
    [] Bits(w, 15, 12) = 4 -> "JSR"  [] Bits(w, 15, 12) = 5 -> "AND"
    [] Bits(w, 15, 12) = 6 -> "LDR"  [] Bits(w, 15, 12) = 7 -> "STR"
    [] Bits(w, 15, 12) = 8 -> "RTI"  [] Bits(w, 15, 12) = 9 -> "NOT"
    [] Bits(w, 15, 12) = 10 -> "LDI" [] Bits(w, 15, 12) = 11 -> "STI"
    [] Bits(w, 15, 12) = 12 -> "JMP" [] Bits(w, 15, 12) = 13 -> "RES"
    [] Bits(w, 15, 12) = 14 -> "LEA" [] OTHER -> "TRAP"

Off(w, n) == SVal(Bits(w, n - 1, 0), n)

\* <<"ok", instr>>, <<"ill">> (reserved opcode) or <<"fmt">> (fixed bits wrong)
Decode(w) ==
  LET op == OpName(w)  a == Bits(w, 11, 9)  b == Bits(w, 8, 6) IN
  CASE op \in {"BR", "LD", "LDI", "LEA", "ST", "STI"} -> <<"ok", <<op, a, Off(w, 9)>>>>
    [] op \in {"ADD", "AND"} ->
         IF Bit(w, 5) = 1 THEN <<"ok", <<op, a, b, 1, Off(w, 5)>>>>
         ELSE IF Bits(w, 4, 3) = 0 THEN <<"ok", <<op, a, b, 0, Bits(w, 2, 0)>>>>
         ELSE <<"fmt">>
    [] op \in {"LDR", "STR"} -> <<"ok", <<op, a, b, Off(w, 6)>>>>
    [] op = "JSR" ->
         IF Bit(w, 11) = 1 THEN <<"ok", <<"JSR", 1, Off(w, 11)>>>>
         ELSE IF Bits(w, 10, 9) = 0 /\ Bits(w, 5, 0) = 0 THEN <<"ok", <<"JSR", 0, b>>>>
         ELSE <<"fmt">>
    [] op = "JMP" ->
         IF a = 0 /\ Bits(w, 5, 0) = 0 THEN <<"ok", <<"JMP", b>>>> ELSE <<"fmt">>
    [] op = "NOT" ->
         IF Bits(w, 5, 0) = 63 THEN <<"ok", <<"NOT", a, b>>>> ELSE <<"fmt">>
    [] op = "RTI" -> IF Bits(w, 11, 0) = 0 THEN <<"ok", <<"RTI">>>> ELSE <<"fmt">>
    [] op = "TRAP" ->
         IF Bits(w, 11, 8) = 0 THEN <<"ok", <<"TRAP", Bits(w, 7, 0)>>>> ELSE <<"fmt">>
    [] op = "RES" -> <<"ill">>

--------------------------------------------------------------------------
\* Disassembly (C07): the name the printed statement must start with
Mnemonics(w) ==
  LET d == Decode(w) IN
  IF w < 512 \/ d[1] # "ok" THEN {".FILL"}
  ELSE LET i == d[2] IN
    CASE i[1] = "BR" -> (CASE i[2] = 7 -> {"BR", "BRNZP"} [] i[2] = 6 -> {"BRNZ"} [] i[2] = 5 -> {"BRNP"}
                          [] i[2] = 4 -> {"BRN"} [] i[2] = 3 -> {"BRZP"} [] i[2] = 2 -> {"BRZ"}
                          [] i[2] = 1 -> {"BRP"} [] i[2] = 0 -> {"NOP"})
      [] i[1] = "JSR" -> IF i[2] = 1 THEN {"JSR"} ELSE {"JSRR"}
      [] i[1] = "JMP" -> IF i[2] = 7 THEN {"RET"} ELSE {"JMP"}
      [] i[1] = "TRAP" -> (CASE i[2] = 32 -> {"GETC"} [] i[2] = 33 -> {"OUT", "PUTC"} [] i[2] = 34 -> {"PUTS"}
                            [] i[2] = 35 -> {"IN"} [] i[2] = 36 -> {"PUTSP"} [] i[2] = 37 -> {"HALT"}
                            [] OTHER -> {"TRAP"})
      [] OTHER -> {i[1]}
==========================================================================
