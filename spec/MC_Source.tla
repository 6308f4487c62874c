------------------------------ MODULE MC_Source ------------------------------
(* Source positions: the lines partition the text, every index is on exactly *)
(* one line, and trimming only removes whitespace.                           *)
EXTENDS Source
CONSTANT Depth
VARIABLES s
Init == s = <<>>
Next == Len(s) < Depth /\ \E c \in {10, 13, 32, 97, 194, 160} : s' = Append(s, c)
Spec == Init /\ [][Next]_s
N == CountLines(s)
Partition == /\ LineStart(s, 0) = 0
             /\ LineEnd(s, LineStart(s, N - 1)) = Len(s)
             /\ \A i \in 0..(N - 2) : LET z == LineEnd(s, LineStart(s, i)) IN s[z + 1] = 10 /\ LineStart(s, i + 1) = z + 1
Position == \A o \in 0..(Len(s) + 3) : LET p == PosPair(s, o) IN
              /\ p[1] \in 0..(N - 1) /\ p[2] >= 0 /\ LineStart(s, p[1]) + p[2] = o
              /\ (p[1] < N - 1 => o < LineStart(s, p[1] + 1))
Trimmed == \A i \in 0..(N - 1) : LET a == LineStart(s, i)  z == LineEnd(s, a)  p == LineSpan(s, i) IN
             /\ a <= p[1] /\ p[1] <= p[2] /\ p[2] <= z
             /\ \A k \in {j \in (a + 1)..z : j <= p[1] \/ j > p[2]} : s[k] # 97
             /\ p[1] < p[2] => s[p[1] + 1] \notin Ws1 /\ s[p[2]] \notin Ws1
=============================================================================
