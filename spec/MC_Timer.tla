------------------------------ MODULE MC_Timer ------------------------------
(* Every interrupt of the counting machine, and every poll without one,     *)
(* follows the rule, whatever is drawn and whatever is done to the timer.   *)
EXTENDS Timer
CONSTANT Max
VARIABLES s, o, bad
vars == <<s, o, bad>>
Ranges == {<<a, b>> \in (0..Max) \X (0..Max) : a <= b}
Init == \E r \in Ranges : /\ s \in {[time |-> x, en |-> FALSE, lo |-> r[1], hi |-> r[2]] : x \in r[1]..r[2]}
                          /\ o = Start(r[1], r[2], FALSE) /\ bad = {}
DoPoll == \E p \in Poll(s) :
  /\ s' = p[1]
  /\ IF p[2] THEN bad' = Fire(o) /\ o' = AfterFire(o) ELSE bad' = Quiet(o, 1) /\ o' = AfterQuiet(o, 1)
DoEnable == \E b \in BOOLEAN : s' = [s EXCEPT !.en = b] /\ o' = Enable(o, b) /\ bad' = {}
DoReset == s' \in Arm(s) /\ o' = Reset(o) /\ bad' = {}
DoRange == \E r \in Ranges : s' = [s EXCEPT !.lo = r[1], !.hi = r[2]] /\ o' = Range(o, r[1], r[2]) /\ bad' = {}
Next == DoPoll \/ DoEnable \/ DoReset \/ DoRange
Spec == Init /\ [][Next]_vars
Bounded == o.n <= Max + 2
Follows == bad = {}
============================================================================
