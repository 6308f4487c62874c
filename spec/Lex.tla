-------------------------------- MODULE Lex --------------------------------
(* LC-3 assembly tokens.  Text is a sequence of bytes (UTF-8).  A token is  *)
(* <<type, value, lo, hi>> with 0-based half-open byte span lo..hi:         *)
(*   "NUM"  <<"u"|"s", value>>    unsigned or signed literal                *)
(*   "REG"  0..7      "KW" keyword name      "ID" bytes of the label        *)
(*   "DIR"  directive name ("" if unknown)   "STR" bytes of the literal     *)
(*   "COLON" "COMMA" "NL"                                                   *)
(*   "ERR"  lexical error (nothing after it is examined)                    *)
(*   "ANY"  outside what this grammar specifies (letters beyond Latin-1)     *)
EXTENDS Integers, Sequences, TLC

Digit == 48..57
Upper == 65..90
Lower == 97..122
Alpha == Upper \cup Lower
WordC == Digit \cup Alpha \cup {95}
HexC  == Digit \cup (65..70) \cup (97..102)
Up(c) == IF c \in Lower THEN c - 32 ELSE c
\* names may also use the Latin-1 letters (UTF-8: byte 195, then one of these), whose cases differ by 32 as well
Latin2 == (128..150) \cup (152..158) \cup (160..182) \cup (184..190)
LowLatin2 == (160..182) \cup (184..190)
UpSeq(b) == [i \in DOMAIN b |-> IF i > 1 /\ b[i - 1] = 195 THEN (IF b[i] \in LowLatin2 THEN b[i] - 32 ELSE b[i]) ELSE Up(b[i])]

Keywords == (<<65,68,68>> :> "ADD") @@
    (<<65,78,68>> :> "AND") @@
    (<<78,79,84>> :> "NOT") @@
    (<<66,82>> :> "BR") @@
    (<<66,82,80>> :> "BRP") @@
    (<<66,82,90>> :> "BRZ") @@
    (<<66,82,90,80>> :> "BRZP") @@
    (<<66,82,78>> :> "BRN") @@
    (<<66,82,78,80>> :> "BRNP") @@
    (<<66,82,78,90>> :> "BRNZ") @@
    (<<66,82,78,90,80>> :> "BRNZP") @@
    (<<74,77,80>> :> "JMP") @@
    (<<74,83,82>> :> "JSR") @@
    (<<74,83,82,82>> :> "JSRR") @@
    (<<76,68>> :> "LD") @@
    (<<76,68,73>> :> "LDI") @@
    (<<76,68,82>> :> "LDR") @@
    (<<76,69,65>> :> "LEA") @@
    (<<83,84>> :> "ST") @@
    (<<83,84,73>> :> "STI") @@
    (<<83,84,82>> :> "STR") @@
    (<<84,82,65,80>> :> "TRAP") @@
    (<<78,79,80>> :> "NOP") @@
    (<<82,69,84>> :> "RET") @@
    (<<82,84,73>> :> "RTI") @@
    (<<71,69,84,67>> :> "GETC") @@
    (<<79,85,84>> :> "OUT") @@
    (<<80,85,84,67>> :> "PUTC") @@
    (<<80,85,84,83>> :> "PUTS") @@
    (<<73,78>> :> "IN") @@
    (<<80,85,84,83,80>> :> "PUTSP") @@
    (<<72,65,76,84>> :> "HALT")
Directives == (<<79,82,73,71>> :> "ORIG") @@
    (<<70,73,76,76>> :> "FILL") @@
    (<<66,76,75,87>> :> "BLKW") @@
    (<<83,84,82,73,78,71,90>> :> "STRINGZ") @@
    (<<69,78,68>> :> "END") @@
    (<<69,88,84,69,82,78,65,76>> :> "EXTERNAL")
KwNames == DOMAIN Keywords
DirNames == DOMAIN Directives

RECURSIVE SkipIn(_, _, _)
\* first index >= i whose byte is not in C
SkipIn(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN SkipIn(s, i + 1, C) ELSE i
RECURSIVE SkipWord(_, _)
\* end of the word characters from i on
SkipWord(s, i) == IF i <= Len(s) /\ s[i] \in WordC THEN SkipWord(s, i + 1)
                  ELSE IF i < Len(s) /\ s[i] = 195 /\ s[i + 1] \in Latin2 THEN SkipWord(s, i + 2) ELSE i
RECURSIVE ToNL(_, _)
\* first index >= i holding a newline (or past the end)
ToNL(s, i) == IF i <= Len(s) /\ s[i] # 10 THEN ToNL(s, i + 1) ELSE i

\* value of the digits s[i..j], capped so that it cannot overflow (cap > any valid value)
Cap == 100000
DigVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in Upper THEN c - 55 ELSE c - 87
RECURSIVE NumVal(_, _, _, _, _)
NumVal(s, i, j, base, acc) ==
  IF i > j THEN acc
  ELSE LET v == acc * base + DigVal(s[i]) IN NumVal(s, i + 1, j, base, IF v > Cap THEN Cap ELSE v)
AllIn(s, i, j, C) == \A k \in i..j : s[k] \in C

Tok(type, v, i, j) == <<type, v, i - 1, j - 1>>     \* bytes i..j-1
Err(i, j) == <<"ERR", 0, i - 1, j - 1>>

\* numeric literal with digits at d..e-1, lexeme i..e-1
Num(s, i, d, e, neg, base) ==
  IF d = e \/ ~AllIn(s, d, e - 1, IF base = 16 THEN HexC ELSE Digit) THEN Err(i, e)
  ELSE LET v == NumVal(s, d, e - 1, base, 0) IN
       IF neg THEN IF v <= 32768 THEN Tok("NUM", <<"s", -v>>, i, e) ELSE Err(i, e)
       ELSE IF v <= 65535 THEN Tok("NUM", <<"u", v>>, i, e) ELSE Err(i, e)

\* string literal: i is the opening quote, j the next byte to read
RECURSIVE Str(_, _, _, _, _)
Str(s, i, j, e, acc) ==     \* e: index of the end of the line
  IF j >= e THEN Err(i, e)
  ELSE IF s[j] = 34 THEN (IF Len(acc) < 65535 THEN Tok("STR", acc, i, j + 1) ELSE Err(i, j + 1))
  ELSE IF s[j] = 92 THEN
     IF j + 1 >= e THEN Err(i, e)
     ELSE LET c == s[j + 1]
              r == CASE c = 110 -> <<10>> [] c = 114 -> <<13>> [] c = 116 -> <<9>>
                     [] c = 92 -> <<92>> [] c = 48 -> <<0>> [] c = 34 -> <<34>>
                     [] OTHER -> <<92, c>>
          IN Str(s, i, j + 2, e, acc \o r)
  ELSE Str(s, i, j + 1, e, Append(acc, s[j]))

\* the token starting at i (s[i] is not a blank)
TokenAt(s, i) ==
  LET c == s[i]
      n == IF i < Len(s) THEN s[i + 1] ELSE 0
      w == SkipWord(s, i)                      \* end of the word starting at i
  IN
  CASE c = 10 -> Tok("NL", 0, i, i + 1)
    [] c = 13 -> IF n = 10 THEN Tok("NL", 0, i, i + 2) ELSE Err(i, i + 1)
    [] c = 44 -> Tok("COMMA", 0, i, i + 1)
    [] c = 58 -> Tok("COLON", 0, i, i + 1)
    [] c = 34 -> LET e0 == ToNL(s, i)
                     e == IF e0 <= Len(s) /\ s[e0 - 1] = 13 THEN e0 - 1 ELSE e0   \* CRLF
                 IN Str(s, i, i + 1, e, <<>>)
    [] c = 46 -> LET e == SkipWord(s, i + 1)
                     b == UpSeq(SubSeq(s, i + 1, e - 1)) IN
                 IF e <= Len(s) /\ s[e] >= 128 THEN <<"ANY", 0, i, i>>
                 ELSE Tok("DIR", IF b \in DirNames THEN Directives[b] ELSE "", i, e)
    [] c \in Digit -> IF w <= Len(s) /\ s[w] >= 128 THEN Err(i, w) ELSE Num(s, i, i, w, FALSE, 10)
    [] c = 35 -> IF n = 45 THEN Num(s, i, i + 2, SkipWord(s, i + 2), TRUE, 10)
                 ELSE Num(s, i, i + 1, SkipWord(s, i + 1), FALSE, 10)
    [] c = 45 -> Num(s, i, i + 1, SkipWord(s, i + 1), TRUE, 10)
    [] c \in {88, 120} /\ n = 45 -> Num(s, i, i + 2, SkipWord(s, i + 2), TRUE, 16)
    [] w <= Len(s) /\ s[w] >= 128 /\ c \in Alpha \cup {95} -> <<"ANY", 0, i, i>>
    [] c \in {88, 120} /\ n \in HexC -> Num(s, i, i + 1, w, FALSE, 16)
    [] c \in {82, 114} /\ w > i + 1 /\ AllIn(s, i + 1, w - 1, Digit) ->
         LET v == NumVal(s, i + 1, w - 1, 10, 0) IN IF v <= 7 THEN Tok("REG", v, i, w) ELSE Err(i, w)
    [] c \in Alpha \cup {95} ->
         LET b == SubSeq(s, i, w - 1) u == UpSeq(b) IN
         IF u \in KwNames THEN Tok("KW", Keywords[u], i, w) ELSE Tok("ID", b, i, w)
    [] OTHER -> Err(i, i + 1)

RECURSIVE LexFrom(_, _, _)
LexFrom(s, i0, acc) ==
  LET i == SkipIn(s, i0, {32, 9}) IN
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 59 THEN LexFrom(s, ToNL(s, i), acc)
  ELSE LET k == TokenAt(s, i) IN
       IF k[1] \in {"ERR", "ANY"} THEN Append(acc, k)
       ELSE LexFrom(s, k[4] + 1, Append(acc, k))
Lex(s) == LexFrom(s, 1, <<>>)
=============================================================================
