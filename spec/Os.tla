--------------------------------- MODULE Os ---------------------------------
(* What the routines of the built-in OS do for their caller.                *)
EXTENDS Isa
Chars(s) == s   \* (text is a sequence of bytes)
Prompt == <<73, 110, 112, 117, 116, 32, 99, 104, 97, 114, 97, 99, 116, 101, 114, 58, 32>>   \* "Input character: "
MsgAcv == <<10, 45, 45, 45, 32, 65, 99, 99, 101, 115, 115, 32, 118, 105, 111, 108, 97, 116, 105, 111, 110, 32, 45, 45, 45>>
MsgPrivl == <<10, 45, 45, 45, 32, 80, 114, 105, 118, 105, 108, 101, 103, 101, 32, 118, 105, 111, 108, 97, 116, 105, 111, 110, 32, 45, 45, 45>>
MsgIllop == <<10, 45, 45, 45, 32, 73, 108, 108, 101, 103, 97, 108, 32, 111, 112, 99, 111, 100, 101, 32, 45, 45, 45>>
Message(fault) == CASE fault = "AccessViolation" -> MsgAcv [] fault = "PrivilegeViolation" -> MsgPrivl [] OTHER -> MsgIllop

Low(w) == w % 256
High(w) == w \div 256
\* words up to the first zero word; bytes (low, then high) up to the first zero byte
UpToZero(n, at(_)) ==
  LET zs == {j \in 1..n : at(j) = 0}  len == IF zs = {} THEN n ELSE (CHOOSE j \in zs : \A k \in zs : j <= k) - 1
  IN [j \in 1..len |-> at(j)]
Puts(ws) == LET t == UpToZero(Len(ws), LAMBDA j : ws[j]) IN [j \in DOMAIN t |-> Low(t[j])]
Putsp(ws) == UpToZero(2 * Len(ws), LAMBDA j : IF j % 2 = 1 THEN Low(ws[(j + 1) \div 2]) ELSE High(ws[j \div 2]))

\* output, input used up, R0 afterwards; r0 and the words from there before the call
Output(trap, r0, ws, kb) ==
  CASE trap = 32 -> <<>>
    [] trap = 33 -> <<Low(r0)>>
    [] trap = 34 -> Puts(ws)
    [] trap = 35 -> Prompt \o <<kb[1]>>
    [] trap = 36 -> Putsp(ws)
    [] trap = 37 -> <<>>
InputLeft(trap, kb) == IF trap \in {32, 35} THEN Tail(kb) ELSE kb
R0After(trap, r0, kb) == IF trap \in {32, 35} THEN kb[1] ELSE r0
=============================================================================
