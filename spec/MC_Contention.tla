---------------------------- MODULE MC_Contention ----------------------------
(* A program that waits for the keyboard, takes a byte, waits for the       *)
(* display and writes it, while the other thread holds, lets go and feeds   *)
(* at any moment between its instructions.                                  *)
EXTENDS Contention, TLC
CONSTANT N
VARIABLES s, pc, x, got, fed, held
vars == <<s, pc, x, got, fed, held>>
Init == s = Start(<<>>) /\ pc = "kbsr" /\ x = 0 /\ got = <<>> /\ fed = 0 /\ held = 0
Prog ==
  /\ UNCHANGED <<fed, held>>
  /\ \/ pc = "kbsr" /\ (\E b \in KbReady(s) : s' = KbStatus(s, b) /\ pc' = (IF b THEN "kbdr" ELSE "kbsr")) /\ UNCHANGED <<x, got>>
     \/ pc = "kbdr" /\ (\E o \in KbTake(s) : s' = o[2] /\ x' = o[1] /\ got' = Append(got, o[1])) /\ pc' = "dsr"
     \/ pc = "dsr" /\ (\E b \in DsReady(s) : s' = DsStatus(s, b) /\ pc' = (IF b THEN "ddr" ELSE "dsr")) /\ UNCHANGED <<x, got>>
     \/ pc = "ddr" /\ (\E o \in DsPut(s, x) : s' = o) /\ pc' = "kbsr" /\ UNCHANGED <<x, got>>
Host ==
  /\ UNCHANGED <<pc, x, got>>
  /\ \/ fed < N /\ s' = Feed(s, <<fed + 1>>) /\ fed' = fed + 1 /\ held' = held
     \/ \E k \in {"kb", "ds"} : s' = Hold(s, k, TRUE) /\ held < 2 * N /\ held' = held + 1 /\ fed' = fed
     \/ \E k \in {"kb", "ds"} : s' = Hold(s, k, FALSE) /\ UNCHANGED <<held, fed>>
LetGo == s' = Hold(Hold(s, "kb", FALSE), "ds", FALSE) /\ UNCHANGED <<pc, x, got, fed, held>>
Next == Prog \/ Host
Spec == Init /\ [][Next]_vars /\ WF_vars(Prog) /\ WF_vars(LetGo) /\ WF_vars(fed < N /\ Host /\ fed' = fed + 1)
Numbers(n) == [j \in 1..n |-> j]
\* exactly once, in order
Once == /\ got \o s.q = Numbers(fed)
        /\ s.out = SubSeq(got, 1, Len(s.out)) /\ Len(got) - Len(s.out) <= 1
        /\ (pc \in {"kbsr", "kbdr"} => s.out = got)
\* everything arrives
Arrives == <>(Len(s.out) = N)
============================================================================
