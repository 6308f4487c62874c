------------------------------ MODULE Debugger ------------------------------
(* Where a run over a known history of instruction boundaries stops.        *)
(* Boundaries are numbered; a run starts at boundary s.  Hard(j): it must   *)
(* stop at j at the latest; Off(j): the MCR is found cleared at j, and at   *)
(* most one more instruction runs.                                          *)
EXTENDS Integers, Sequences, FiniteSets
Least(s, last, P(_)) ==
  LET ix == {j \in s..last : P(j)} IN IF ix = {} THEN last + 1 ELSE CHOOSE j \in ix : \A k \in ix : j <= k
Stops(s, last, Hard(_), Off(_)) ==
  LET h == Least(s, last, Hard)  m == Least(s, last, Off) IN IF m < h THEN {m, m + 1} ELSE {h}

\* the tripwires; h is the history
Over(h, s, j) == j > s /\ h[j].d <= h[s].d
Out(h, s, j) == j > s /\ h[j].d < h[s].d
Limit(h, s, j, n) == h[j].n - h[s].n >= n
Compare(op, a, b) ==
  CASE op = "never" -> FALSE [] op = "always" -> TRUE [] op = "lt" -> a < b [] op = "le" -> a <= b
    [] op = "eq" -> a = b [] op = "ne" -> a # b [] op = "gt" -> a > b [] op = "ge" -> a >= b
=============================================================================
