------------------------------ MODULE MC_Ports ------------------------------
(* All histories of configuration over a few ports.                         *)
EXTENDS Ports
CONSTANTS PORTS, MaxId
VARIABLES s, given, gone
vars == <<s, given, gone>>
Init == s = Init0 /\ given = <<>> /\ gone = {}
Next ==
  \/ \E ps \in SUBSET PORTS : /\ CanAdd(s, ps) /\ Len(given) + 3 <= MaxId
       /\ LET id == Len(given) + 3 IN s' = Add(s, id, <<"rec", id>>, ps) /\ given' = Append(given, ps) /\ gone' = gone
  \/ \E id \in 1..MaxId : id \in DOMAIN s.dev /\ s' = Remove(s, id) /\ gone' = gone \cup ({id} \ Fixed) /\ UNCHANGED given
  \/ \E id \in Fixed : s' = Replace(s, id, <<"rec", id>>) /\ UNCHANGED <<given, gone>>
  \/ \E a \in PORTS : a >= IoLo /\ a \notin DOMAIN s.ireg /\ s' = Map(s, a, "PC") /\ UNCHANGED <<given, gone>>
  \/ \E a \in PORTS : a \in DOMAIN s.ireg /\ s' = Unmap(s, a) /\ UNCHANGED <<given, gone>>
Spec == Init /\ [][Next]_vars
\* every port leads to a device that is there; keyboard and display ports stay reserved
Owned == \A p \in DOMAIN s.own : p >= IoLo /\ s.own[p] \in DOMAIN s.dev /\ s.own[p] \notin gone
Reserved == s.own[KBSR] = 1 /\ s.own[KBDR] = 1 /\ s.own[DSR] = 2 /\ s.own[DDR] = 2
\* a device that is there owns exactly what it asked for
Exact == \A id \in DOMAIN s.dev \ Fixed : {p \in DOMAIN s.own : s.own[p] = id} = given[id - 2]
Unique == \A id \in DOMAIN s.dev : id \in s.used
Ids == gone \cap DOMAIN s.dev = {}
\* an access reaches one thing, and changes nothing else
Access == \A a \in PORTS : LET w == Reached(s, a) IN
  /\ (a >= IoLo /\ a \in DOMAIN s.ireg) => w = <<"ireg", s.ireg[a]>>
  /\ (a >= IoLo /\ a \notin DOMAIN s.ireg /\ a \in DOMAIN s.own) => w = s.dev[s.own[a]]
  /\ LET r == Rd(s, a, TRUE, 7)  x == Wr(s, a, 7, TRUE)  y == Wr(s, a, 7, FALSE) IN
     /\ (r.call # <<>>) = (w[1] = "rec") /\ (x.call # <<>>) = (w[1] = "rec")
     /\ \A b \in PORTS \ {a} : Mem(r.s, b) = Mem(s, b) /\ Mem(x.s, b) = Mem(s, b)
     /\ (w[1] = "none" \/ w[1] = "rec") => Mem(y.s, a) = Mem(s, a)
     /\ (w[1] # "ireg") => x.s.reg = s.reg
============================================================================
