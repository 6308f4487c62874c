----------------------------- MODULE MC_Debugger -----------------------------
(* The run loop (check the MCR, check the tripwire, step, check the         *)
(* breakpoints) on every short history, against Debugger!Stops; and runs    *)
(* split into segments against unbroken ones.                               *)
EXTENDS Debugger, TLC
CONSTANT L
Rows == [what : {"", "halt", "err", "bp", "off", "irq"}, d : 0..2]
Ops == {<<"run", 0>>, <<"over", 0>>, <<"out", 0>>} \cup {<<"limit", k>> : k \in 0..3}
VARIABLES h, op, s, pos, mcr, phase, first
vars == <<h, op, s, pos, mcr, phase, first>>
\* instruction counts: interrupt entries (and failed steps) are not instructions
RECURSIVE Count(_, _)
Count(w, j) == IF j = 1 THEN 0 ELSE Count(w, j - 1) + IF w[j].what \in {"irq", "err", "halt"} THEN 0 ELSE 1
Hist(w) == [j \in DOMAIN w |-> [what |-> w[j].what, d |-> w[j].d, n |-> Count(w, j)]]
Init ==
  /\ h \in {Hist(<<[what |-> "", d |-> d0]>> \o w) : d0 \in 0..2, w \in [1..L -> Rows]}
  /\ op \in Ops /\ s = 1 /\ pos = 1 /\ mcr = TRUE /\ phase = "check" /\ first = TRUE
\* TRUE: go on
Trip == CASE op[1] = "run" -> TRUE
          [] op[1] = "limit" -> h[pos].n - h[s].n < op[2]
          [] op[1] = "over" -> first \/ h[s].d < h[pos].d
          [] op[1] = "out" -> first \/ h[s].d <= h[pos].d
Check ==
  /\ phase = "check" /\ UNCHANGED <<h, op, s, pos, mcr>>
  /\ IF ~mcr \/ (op[1] = "out" /\ h[s].d = 0) THEN phase' = "stopped" /\ UNCHANGED first
     ELSE IF ~Trip THEN phase' = "stopped" /\ first' = FALSE
     ELSE phase' = "step" /\ first' = FALSE
Go ==
  /\ phase = "step" /\ pos <= L /\ pos' = pos + 1 /\ UNCHANGED <<h, op, s, first>>
  /\ mcr' = (h[pos + 1].what # "off")
  /\ phase' = IF h[pos + 1].what \in {"halt", "err", "bp"} THEN "stopped" ELSE "check"
\* what follows continues from there with another operation
Resume ==
  /\ phase = "stopped" /\ pos <= L /\ pos > s /\ s' = pos /\ mcr' = TRUE /\ phase' = "check" /\ first' = TRUE
  /\ op' \in {<<"run", 0>>, <<"limit", 1>>, <<"over", 0>>} /\ UNCHANGED <<h, pos>>
Next == Check \/ Go \/ Resume
Spec == Init /\ [][Next]_vars
Hard(j) ==
  \/ j > s /\ h[j].what \in {"halt", "err", "bp"}
  \/ op[1] = "over" /\ Over(h, s, j)
  \/ op[1] = "out" /\ (Out(h, s, j) \/ h[s].d = 0)
  \/ op[1] = "limit" /\ Limit(h, s, j, op[2])
Off(j) == j > s /\ h[j].what = "off"
StopsRight == phase = "stopped" => pos \in Stops(s, L + 1, Hard, Off)
NeverPast == phase # "stopped" => \A j \in Stops(s, L + 1, Hard, Off) : pos <= j
==============================================================================
