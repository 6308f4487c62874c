---------------------------- MODULE MC_Lifecycle ----------------------------
(* All histories of loading, executing, configuring and resetting over a    *)
(* memory of a few words, the last of which is the I/O page.                *)
EXTENDS Lifecycle
CONSTANT W
VARIABLES s, last
vars == <<s, last>>
Fill == {0, 1}
New(f) == [mem |-> [a \in 0..(W - 1) |-> IF a = W - 1 THEN 0 ELSE IF a = 0 THEN 2 ELSE f],
           init |-> [a \in 0..(W - 1) |-> a \in {0, W - 1}], pc |-> 1, n |-> 0]
Files == {<<<<b, <<<<1, w>>, <<k, -1>>>>>>>> : b \in 0..(W - 1), w \in {2, 3}, k \in {0, 1, 2}}
         \cup {<<<<1, <<<<1, 3>>>>>>, <<W - 1, <<<<1, -1>>, <<1, 2>>>>>>>>}
Init == \E f \in Fill : s = [mach |-> New(f), conf |-> [flags |-> f, bps |-> {}]] /\ last = <<"new">>
DoLoad == \E b \in Files : s' = [s EXCEPT !.mach = Load(@, b, W)] /\ last' = <<"load", b, s.mach>>
DoStep == \E a \in 0..(W - 1), v \in {0, 3} : s.mach.n < 2 /\ s' = [s EXCEPT !.mach.mem[a] = v, !.mach.init[a] = TRUE, !.mach.pc = a, !.mach.n = @ + 1] /\ last' = <<"step">>
DoConf == \E f \in Fill, p \in SUBSET {0} : s' = [s EXCEPT !.conf.flags = f, !.conf.bps = p] /\ last' = <<"conf">>
DoReset == s' = Reset(s, New) /\ last' = <<"reset", s.conf>>
Next == DoLoad \/ DoStep \/ DoConf \/ DoReset
Spec == Init /\ [][Next]_vars
\* a load leaves its words, and nothing else changed
Loaded == last[1] = "load" =>
  LET bs == last[2]  m == last[3]  cover == UNION {Covered(bs[j], W) : j \in DOMAIN bs} IN
  /\ s.mach.pc = m.pc /\ s.mach.n = m.n
  /\ \A a \in 0..(W - 1) \ cover : s.mach.mem[a] = m.mem[a] /\ s.mach.init[a] = m.init[a]
  /\ \A j \in DOMAIN bs : \A k \in 0..(Length(bs[j][2], 1) - 1) :
       LET a == (bs[j][1] + k) % W  w == WordAt(bs[j][2], 1, k) IN
       IF w < 0 THEN ~s.mach.init[a] ELSE s.mach.init[a] /\ s.mach.mem[a] = w
  \* the two ways of saying where a block lies agree
  /\ \A j \in DOMAIN bs : \A a \in 0..(W - 1) : (a \in Covered(bs[j], W)) = Within(bs[j], a, a, W)
  /\ \A j \in DOMAIN bs : Length(Join(bs[j][2], 1), 1) = Length(bs[j][2], 1)
ResetIsNew == last[1] = "reset" => s.mach = New(s.conf.flags) /\ s.conf = last[2]
============================================================================
