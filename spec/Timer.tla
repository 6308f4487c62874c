------------------------------- MODULE Timer -------------------------------
(* The timer, twice: as a machine that counts a hidden time down, and as    *)
(* the rule its interrupts must follow.  MC_Timer shows that the machine    *)
(* keeps the rule; T_C34 checks the rule on the real timer.                 *)
EXTENDS Integers, Sequences

\* --- the machine: time left, enabled, range lo..hi
Arm(s) == {[s EXCEPT !.time = x] : x \in s.lo..s.hi}
\* <<next state, fires?>>
Poll(s) ==
  IF ~s.en THEN {<<s, FALSE>>}
  ELSE IF s.time = 0 THEN {<<[s EXCEPT !.time = x], x = 0>> : x \in s.lo..s.hi}
  ELSE {<<[s EXCEPT !.time = @ - 1], s.time = 1>>}

\* --- the rule: polls counted since the last interrupt ("gap"), since the
\* timer was enabled or reset ("first"), or nothing known because the range
\* was changed on the way ("free")
Top(o) == IF o.hi = 0 THEN 1 ELSE o.hi
Start(lo, hi, en) == [mode |-> "first", n |-> 0, lo |-> lo, hi |-> hi, en |-> en]
\* k polls in a row without an interrupt
Quiet(o, k) ==
  IF ~o.en \/ o.mode = "free" THEN {} ELSE
  IF o.n + k <= Top(o) THEN {} ELSE {IF o.mode = "gap" THEN "interval too long" ELSE "first interrupt too late"}
AfterQuiet(o, k) == IF o.en THEN [o EXCEPT !.n = @ + k] ELSE o
Fire(o) ==
  IF ~o.en THEN {"a disabled timer"}
  ELSE IF o.mode = "gap" /\ o.n < o.lo THEN {"interval too short"}
  ELSE {}
AfterFire(o) == [o EXCEPT !.mode = "gap", !.n = 0]
Enable(o, b) == IF o.en = b THEN o ELSE [o EXCEPT !.en = b, !.n = 0, !.mode = IF @ = "free" THEN "free" ELSE "first"]
Reset(o) == [o EXCEPT !.n = 0, !.mode = "first"]
Range(o, lo, hi) == [o EXCEPT !.lo = lo, !.hi = hi, !.mode = "free", !.n = 0]
============================================================================
