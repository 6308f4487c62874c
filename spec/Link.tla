-------------------------------- MODULE Link --------------------------------
(* Linking.  An object is a record with fields blocks (set of <<lo, hi>>),  *)
(* init (set of <<address, word>>), runs, labels (set of <<name, address,   *)
(* external>>) and rel (set of <<address, external name>>), as Asm makes it.*)
EXTENDS Integers, FiniteSets

BOverlap(b, c) == b[1] < c[2] /\ c[1] < b[2]
Disjoint(a, b) == \A x \in a.blocks, y \in b.blocks : ~BOverlap(x, y)
Agree(a, b) == \A x \in a.labels, y \in b.labels : (x[1] = y[1] /\ ~x[3] /\ ~y[3]) => x[2] = y[2]
Linkable(a, b) == Disjoint(a, b) /\ Agree(a, b)

\* labels of a set of label entries: a definition beats declarations
Resolve(ls) == {x \in ls : ~x[3] \/ \A y \in ls : y[1] = x[1] => y[3]}
Patch(init, rel, labels) ==
  LET def == {r \in rel : \E x \in labels : x[1] = r[2] /\ ~x[3]}
      val(r) == (CHOOSE x \in labels : x[1] = r[2] /\ ~x[3])[2]
      at == {r[1] : r \in def}
  IN {c \in init : c[1] \notin at} \cup {<<r[1], val(r)>> : r \in def}
Pending(rel, labels) == {r \in rel : \A x \in labels : x[1] = r[2] => x[3]}

Link(a, b) ==
  LET ls == Resolve(a.labels \cup b.labels)  rel == a.rel \cup b.rel IN
  [blocks |-> a.blocks \cup b.blocks,
   init   |-> Patch(a.init \cup b.init, rel, ls),
   runs   |-> a.runs \cup b.runs,
   labels |-> ls,
   rel    |-> Pending(rel, ls)]

\* linking a whole set of files at once, in no order (os: a sequence of objects)
AllLinkable(os) == \A i, j \in DOMAIN os : i < j => Linkable(os[i], os[j])
LinkAll(os) ==
  LET ls == Resolve(UNION {os[i].labels : i \in DOMAIN os})
      rel == UNION {os[i].rel : i \in DOMAIN os} IN
  [blocks |-> UNION {os[i].blocks : i \in DOMAIN os},
   init   |-> Patch(UNION {os[i].init : i \in DOMAIN os}, rel, ls),
   runs   |-> UNION {os[i].runs : i \in DOMAIN os},
   labels |-> ls,
   rel    |-> Pending(rel, ls)]
=============================================================================
