------------------------------- MODULE Source -------------------------------
(* Source text as bytes (UTF-8): lines, trimming, positions.  Offsets and   *)
(* line numbers are 0-based, spans half-open.                               *)
EXTENDS Integers, Sequences, FiniteSets
NLs(s) == {k \in DOMAIN s : s[k] = 10}            \* 1-based indices of the newlines
CountLines(s) == Cardinality(NLs(s)) + 1
RECURSIVE NthNL(_, _, _)
\* 0-based offset just after the i-th newline (i >= 1), scanning from k
NthNL(s, k, i) == IF s[k] = 10 THEN (IF i = 1 THEN k ELSE NthNL(s, k + 1, i - 1)) ELSE NthNL(s, k + 1, i)
LineStart(s, i) == IF i = 0 THEN 0 ELSE NthNL(s, 1, i)
RECURSIVE EndFrom(_, _)
EndFrom(s, k) == IF k > Len(s) \/ s[k] = 10 THEN k - 1 ELSE EndFrom(s, k + 1)
LineEnd(s, lo) == EndFrom(s, lo + 1)              \* without the newline

\* length of the whitespace character that starts / ends at a byte (0: none)
Ws1 == (9..13) \cup {32}
Ws2(a, b) == a = 194 /\ b \in {133, 160}
Ws3(a, b, c) == \/ a = 225 /\ b = 154 /\ c = 128
                \/ a = 226 /\ b = 128 /\ (c \in 128..138 \/ c \in {168, 169, 175})
                \/ a = 226 /\ b = 129 /\ c = 159
                \/ a = 227 /\ b = 128 /\ c = 128
RECURSIVE TrimL(_, _, _)
TrimL(s, lo, hi) ==
  IF lo >= hi THEN hi
  ELSE IF s[lo + 1] \in Ws1 THEN TrimL(s, lo + 1, hi)
  ELSE IF lo + 2 <= hi /\ Ws2(s[lo + 1], s[lo + 2]) THEN TrimL(s, lo + 2, hi)
  ELSE IF lo + 3 <= hi /\ Ws3(s[lo + 1], s[lo + 2], s[lo + 3]) THEN TrimL(s, lo + 3, hi)
  ELSE lo
RECURSIVE TrimR(_, _, _)
TrimR(s, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE IF s[hi] \in Ws1 THEN TrimR(s, lo, hi - 1)
  ELSE IF lo + 2 <= hi /\ Ws2(s[hi - 1], s[hi]) THEN TrimR(s, lo, hi - 2)
  ELSE IF lo + 3 <= hi /\ Ws3(s[hi - 2], s[hi - 1], s[hi]) THEN TrimR(s, lo, hi - 3)
  ELSE hi
Slice(s, lo, hi) == SubSeq(s, lo + 1, hi)
\* the trimmed span of line i; an all-blank line has an empty one
LineSpan(s, i) ==
  LET a == LineStart(s, i)  z == LineEnd(s, a)  r == TrimR(s, a, z) IN <<TrimL(s, a, r), r>>
LineText(s, i) == LET p == LineSpan(s, i) IN Slice(s, p[1], p[2])
\* the line an index is on; past the end: the last line
LineAt(s, off) == Cardinality({k \in NLs(s) : k <= off})
PosPair(s, off) == LET i == LineAt(s, off) IN <<i, off - LineStart(s, i)>>
=============================================================================
