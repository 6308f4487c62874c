------------------------------- MODULE Sweep -------------------------------
(* Long programs of a fixed form.  Header ".orig xHHHH" and newline; then   *)
(* line i of the body (i from 0) is a label of 6 bytes, a blank, a statement *)
(* padded to 16 bytes, a newline, and for odd i an empty line.               *)
(* Statement i of kind                                                       *)
(*   "fill"  .fill (13 i + 5) mod 2^16      "self"  .fill of its own label   *)
(*   "LD", "LEA", "BR", "JSR"  of the label Target(kind, n, i)               *)
EXTENDS Isa, Integers, Sequences
StartOf(i) == 12 + 24 * i + i \div 2
LineNo(i) == 1 + i + i \div 2
Delta(kind, i) == IF kind = "JSR" THEN ((i * 11) % 2048) - 1024 ELSE ((i * 7) % 512) - 256
Target(kind, n, i) == LET t == i + 1 + Delta(kind, i) IN IF t < 0 THEN 0 ELSE IF t >= n THEN n - 1 ELSE t
SweepWord(kind, org, n, i) ==
  LET d == Target(kind, n, i) - (i + 1) IN
  CASE kind = "fill" -> (13 * i + 5) % W
    [] kind = "self" -> org + i
    [] kind = "BR" -> Encode(<<"BR", 2, d>>)
    [] kind = "JSR" -> Encode(<<"JSR", 1, d>>)
    [] OTHER -> Encode(<<kind, i % 8, d>>)
\* the statement on a line, -1: none
StmtOn(n, ln) == IF ln = 0 \/ (ln - 1) % 3 = 2 THEN -1 ELSE LET i == ((ln - 1) \div 3) * 2 + ((ln - 1) % 3) IN IF i < n THEN i ELSE -1

WordsMM(e) ==      \* <<"words", kind, org, n, words>>
  IF Len(e[5]) # e[4] THEN {"image"}
  ELSE IF \A i \in 0..(e[4] - 1) : e[5][i + 1] = SweepWord(e[2], e[3], e[4], i) THEN {} ELSE {"words"}
LabelsMM(e) ==     \* <<"labels", org, n, addresses, <<i, reverse>>, source starts>>
  LET n == e[3] IN
  (IF Len(e[4]) = n /\ \A i \in 0..(n - 1) : e[4][i + 1] = e[2] + i THEN {} ELSE {"address lookup"})
  \cup (IF \A j \in DOMAIN e[5] : e[5][j][1] = e[5][j][2] THEN {} ELSE {"reverse lookup"})
  \cup (IF Len(e[6]) = n /\ \A i \in 0..(n - 1) : e[6][i + 1] = StartOf(i) THEN {} ELSE {"source span"})
LinesMM(e) ==      \* <<"lines", org, n, address of lines 0.., line of addresses 0.., table>>
  LET org == e[2]  n == e[3] IN
  (IF Len(e[4]) > LineNo(n - 1) /\ \A j \in DOMAIN e[4] : LET i == StmtOn(n, j - 1) IN e[4][j] = (IF i = -1 THEN -1 ELSE org + i) THEN {} ELSE {"address of a line"})
  \cup (IF Len(e[5]) = W /\ \A a \in 0..65535 : e[5][a + 1] = (IF a < org \/ a >= org + n THEN -1 ELSE LineNo(a - org)) THEN {} ELSE {"line of an address"})
  \cup (IF Len(e[6]) = n /\ \A i \in 0..(n - 1) : e[6][i + 1] = <<LineNo(i), org + i>> THEN {} ELSE {"line table"})
LinkedMM(e) ==     \* <<"linked", n1, n2, line of each address, label at each address>>: 100000 * file + number
  LET want(j) == IF j <= e[2] THEN 100000 + j - 1 ELSE 200000 + j - e[2] - 1 IN
  (IF Len(e[4]) = e[2] + e[3] /\ \A j \in DOMAIN e[4] : e[4][j] = want(j) THEN {} ELSE {"line of an address"})
  \cup (IF Len(e[5]) = e[2] + e[3] /\ \A j \in DOMAIN e[5] : e[5][j] = want(j) THEN {} ELSE {"span of a label"})
SourceMM(e) ==     \* <<"big", lines, width with newline, line count, <<i, lo, hi, length>>, <<index, line, column>>>>
  LET w == e[3] IN
  (IF e[4] = e[2] + 1 THEN {} ELSE {"line count"})
  \cup (IF \A j \in DOMAIN e[5] : LET x == e[5][j]  a == x[1] * w IN x[2] = a /\ x[3] = a + w - 1 /\ x[4] = w - 1 THEN {} ELSE {"span of a line"})
  \cup (IF \A j \in DOMAIN e[6] : LET x == e[6][j] IN x[2] = x[1] \div w /\ x[3] = x[1] % w THEN {} ELSE {"position"})
=============================================================================
