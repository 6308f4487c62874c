------------------------------- MODULE MC_Link -------------------------------
(* Linking itself: for every three small object files, every order and       *)
(* grouping succeeds or fails alike and gives what linking the set at once   *)
(* gives.                                                                    *)
EXTENDS Link, Sequences
VARIABLES os
Def(c, nm, d) == IF d = "none" THEN {} ELSE {<<nm, IF d = "ext" THEN 0 ELSE IF d = "at" THEN c ELSE c + 1, d = "ext">>}
Obj(c, da, db, u) ==
  [blocks |-> {<<c, c + 1>>}, init |-> {<<c, IF u = "" THEN 100 + c ELSE 0>>}, runs |-> {}, labels |-> Def(c, "A", da) \cup Def(c, "B", db),
   rel |-> IF u = "" THEN {} ELSE {<<c, u>>}]
D == {"none", "ext", "at"}
Objs == {Obj(c, da, db, "") : <<c, da, db>> \in (1..3) \X (D \cup {"past"}) \X D}
        \cup {Obj(c, "ext", db, "A") : <<c, db>> \in (1..3) \X D} \cup {Obj(c, da, "ext", "B") : <<c, da>> \in (1..3) \X D}
Init == os = <<>>
Next == Len(os) < 3 /\ \E o \in Objs : os' = Append(os, o)
Spec == Init /\ [][Next]_os

Fail == [blocks |-> {}, init |-> {}, runs |-> {}, labels |-> {<<"fail", 0, FALSE>>}, rel |-> {}]
L(a, b) == IF a = Fail \/ b = Fail THEN Fail ELSE IF Linkable(a, b) THEN Link(a, b) ELSE Fail
All == IF AllLinkable(os) THEN LinkAll(os) ELSE Fail
OrderFree == Len(os) = 3 => LET a == os[1]  b == os[2]  c == os[3] IN
  \A x \in { L(L(a, b), c), L(a, L(b, c)), L(L(b, a), c), L(c, L(b, a)), L(L(a, c), b), L(b, L(c, a)) } : x = All
PairFree == Len(os) = 2 => L(os[1], os[2]) = All /\ L(os[2], os[1]) = All
\* pending references are exactly those no file defines; the others hold the label's address
Resolved == (os # <<>> /\ AllLinkable(os)) => \A i \in DOMAIN os : \A r \in os[i].rel :
  LET defs == {y \in UNION {os[j].labels : j \in DOMAIN os} : y[1] = r[2] /\ ~y[3]} IN
  IF defs = {} THEN r \in All.rel /\ <<r[1], 0>> \in All.init
  ELSE r \notin All.rel /\ \A d \in defs : <<r[1], d[2]>> \in All.init
=============================================================================
