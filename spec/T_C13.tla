------------------------------- MODULE T_C13 -------------------------------
(* A history of single steps (h, one record per instruction boundary) and   *)
(* several ways of running the same program in segments.                    *)
EXTENDS TraceBase, Debugger
Aspect(b, s) == IF b THEN {} ELSE {s}
Index(s, x) == CHOOSE j \in DOMAIN s : s[j] = x
Match(b, row, watch) ==
  IF b[1] = "pc" THEN row.pc = b[2]
  ELSE Compare(b[3], IF b[1] = "reg" THEN row.r[b[2] + 1] ELSE row.mem[Index(watch, b[2])], b[4])
BpAt(o, h, watch, s, j) == j > s /\ \E b \in {o.bps[x] : x \in DOMAIN o.bps} : Match(b, h[j], watch)
Trip(o, h, s, j) ==
  CASE o.op = "limit" -> Limit(h, s, j, o.arg)
    [] o.op = "steps" -> j - s >= o.arg
    [] o.op = "count" -> h[j].n - h[s].n >= o.arg \/ h[j].n - h[s].n >= 60
    [] o.op = "over" -> Over(h, s, j)
    [] o.op = "out" -> Out(h, s, j) \/ h[s].d = 0
    [] o.op = "in" -> j > s
    [] o.op = "while" -> j - s >= o.arg
    [] o.op = "depth" -> h[j].d > o.arg \/ j - s >= o.cap
    [] o.op = "off" -> j - s >= o.cap
    [] OTHER -> FALSE
OffAt(o, h, s, j) == (j > s /\ h[j].off) \/ (o.op = "off" /\ j = s + o.arg)
Capped == {"run", "limit", "steps", "over", "out"}
\* <<boundary, result>> an operation started at boundary s may end with; boundary 0: not known
Ends(o, h, watch, s) ==
  LET N == Len(h)
      hard(j) == (j > s /\ (h[j].res # "ok" \/ h[j].halted)) \/ (o.op # "in" /\ BpAt(o, h, watch, s, j)) \/ Trip(o, h, s, j)
      off(j) == o.op # "in" /\ OffAt(o, h, s, j)
      end(j) == IF o.op \in Capped /\ j > s + o.cap THEN (IF s + o.cap > N THEN <<0, "">> ELSE <<s + o.cap, "Interrupt">>)
                ELSE IF j > N THEN <<0, "">> ELSE <<j, IF j > s THEN h[j].res ELSE "ok">>
  IN {end(j) : j \in Stops(s, N, hard, off)}
AllEnds(o, h, watch, s) == Ends(o, h, watch, s) \cup (IF o.op = "limit" THEN Ends([o EXCEPT !.op = "steps"], h, watch, s) ELSE {})
\* why an operation that ended well at j stopped there
Reasons(o, h, watch, s, j) ==
  (IF BpAt(o, h, watch, s, j) THEN {"bp"} ELSE {}) \cup (IF j > s /\ h[j].halted THEN {"halt"} ELSE {})
  \cup (IF \E k \in {j - 1, j} : k >= s /\ OffAt(o, h, s, k) THEN {"halt"} ELSE {})
  \cup (IF Trip(o, h, s, j) \/ (o.op = "limit" /\ j - s >= o.arg) THEN {"trip"} ELSE {})
FlagsOk(o, h, watch, s, j) ==
  LET R == Reasons(o, h, watch, s, j) IN
  o.res = "ok" /\ o.op # "in" /\ ~(o.op = "out" /\ h[s].d = 0) =>
    /\ o.hb => "bp" \in R
    /\ o.hh => "halt" \in R
    /\ R = {"bp"} => o.hb
    /\ R = {"halt"} => o.hh
At(h, j, o) == h[j].dig = o.dig /\ h[j].n = o.n
RECURSIVE Walk(_, _, _, _, _)
Walk(ops, k, h, watch, from) ==
  IF k > Len(ops) \/ 0 \in from THEN {}
  ELSE LET o == ops[k]
           ends == {<<s, e[1], e[2]>> : s \in from, e \in UNION {AllEnds(o, h, watch, s0) : s0 \in from}}
           real == {x \in ends : <<x[2], x[3]>> \in AllEnds(o, h, watch, x[1])}
           good == {x \in real : x[2] = 0 \/ (At(h, x[2], o) /\ o.res = x[3])} IN
       IF good = {} THEN
         {<<k, o.op, IF \E x \in real : At(h, x[2], o) THEN "result" ELSE IF \E j \in DOMAIN h : At(h, j, o) THEN "stops at another boundary" ELSE "reaches a state single steps do not">>}
       ELSE IF ~\E x \in good : x[2] = 0 \/ FlagsOk(o, h, watch, x[1], x[2]) THEN {<<k, o.op, "reported reason">>}
       ELSE Walk(ops, k + 1, h, watch, {x[2] : x \in good})
MM(i, k) == LET t1 == Traces[i] IN
  IF \E j \in DOMAIN t1.h : t1.h[j].res = "panic" THEN {"panic"} ELSE Walk(t1.ev[k].ops, 1, t1.h, t1.watch, {1})
============================================================================
