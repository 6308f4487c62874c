------------------------------- MODULE MC_Asm -------------------------------
(* Assembly itself, statement by statement, on every program made of few     *)
(* statements: pass 1 as the transition system, checked against a            *)
(* declarative reading of a well-formed program and of its memory image.     *)
EXTENDS Asm
CONSTANTS Depth
A == <<65>>  B == <<98>>   Bu == <<66>>
St(lbs, n) == <<[k \in DOMAIN lbs |-> <<lbs[k], 0, 1>>], n, 0, 1>>
Use(x) == <<"l", x, 0, 1>>
Imm(x) == <<"o", x>>
Pool == { St(<<>>, <<".ORIG", 100>>), St(<<>>, <<".ORIG", 102>>), St(<<>>, <<".ORIG", 65022>>), St(<<>>, <<".END">>), St(<<A>>, <<".END">>),
           St(<<>>, <<".EXTERNAL", <<"l", A, 0, 1>>>>), St(<<B>>, <<".FILL", Use(A)>>), St(<<A>>, <<".BLKW", 0>>), St(<<A>>, <<".BLKW", 2>>),
           St(<<>>, <<".BLKW", 1>>), St(<<>>, <<".STRINGZ", <<7>>>>), St(<<Bu>>, <<".STRINGZ", <<>>>>), St(<<>>, <<"LD", 1, Use(B)>>),
           St(<<A, B>>, <<"BR", 7, Imm(-1)>>), St(<<>>, <<".BLKW", 300>>) }
VARIABLES ss, acc
vars == <<ss, acc>>
Init == ss = <<>> /\ acc = Place0
Next == Len(ss) < Depth /\ \E st \in Pool : ss' = Append(ss, st) /\ acc' = PlaceSt(acc, st)
Spec == Init /\ [][Next]_vars

Is(i, d) == ss[i][2][1] = d
Inside(i) == \E j \in 1..(i - 1) : Is(j, ".ORIG") /\ \A k \in (j + 1)..(i - 1) : ~Is(k, ".END")
LastOrg(i) == CHOOSE j \in 1..(i - 1) : Is(j, ".ORIG") /\ \A k \in (j + 1)..(i - 1) : ~Is(k, ".ORIG")
RECURSIVE SumSize(_, _)
SumSize(i, j) == IF i > j THEN 0 ELSE Size(ss[i][2]) + SumSize(i + 1, j)
AddrOf(i) == ss[LastOrg(i)][2][2] + SumSize(LastOrg(i), i - 1)
Nested == /\ \A i \in DOMAIN ss : Is(i, ".ORIG") => ~Inside(i)
          /\ \A i \in DOMAIN ss : Is(i, ".END") => Inside(i)
          /\ ~Inside(Len(ss) + 1)
          /\ \A i \in DOMAIN ss : ~Inside(i) => ss[i][1] = <<>> /\ (Is(i, ".ORIG") \/ Is(i, ".END") \/ Is(i, ".EXTERNAL"))
Res == Asm(ss, <<>>)
StructErrs == {"UndetAddrLabel", "UndetAddrStmt", "OverlappingOrig", "UnopenedOrig", "UnclosedOrig"}
\* the operational accumulator is the declarative reading
StructureOk == (Res.errs \cap StructErrs = {}) <=> Nested
FoldOk == Place(ss).binds = acc.binds
PlacedOk == Nested => \A i \in DOMAIN ss : acc.addr[i] = IF Inside(i) /\ ~Is(i, ".END") /\ ~Is(i, ".EXTERNAL") THEN AddrOf(i) ELSE -1
BlocksOk == Nested => Res.blocks = {<<ss[i][2][2], AddrOf(j)>> : <<i, j>> \in {p \in (DOMAIN ss) \X (DOMAIN ss) :
               p[1] < p[2] /\ Is(p[1], ".ORIG") /\ Is(p[2], ".END") /\ LastOrg(p[2]) = p[1] /\ AddrOf(p[2]) > ss[p[1]][2][2]}}
\* addresses a block covers
Cover == UNION {b[1]..(b[2] - 1) : b \in Res.blocks}
RunCells == UNION {r[1]..(r[2] - 1) : r \in Res.runs}
Good == Res.errs = {}
ImageOk == Good => /\ {c[1] : c \in Res.init} \cup RunCells = Cover
                   /\ {c[1] : c \in Res.init} \cap RunCells = {}
                   /\ Cardinality(Res.init) = Cardinality({c[1] : c \in Res.init})
                   /\ \A c \in Res.init : c[2] \in Word
                   /\ \A a \in Cover : a < IoStart
                   /\ \A b, c \in Res.blocks : b # c => (b[1]..(b[2] - 1)) \cap (c[1]..(c[2] - 1)) = {}
                   /\ \A r, q \in Res.runs : r[2] # q[1]
LabelsOk == (Good /\ ~Res.unspec) =>
              /\ \A x, y \in Res.labels : x[1] = y[1] => x = y
              /\ \A x \in Res.labels : x[3] <=> \A i \in DOMAIN ss : Inside(i) => \A k \in DOMAIN ss[i][1] : UpSeq(ss[i][1][k][1]) # x[1]
              /\ \A i \in DOMAIN ss : \A k \in DOMAIN ss[i][1] : <<UpSeq(ss[i][1][k][1]), AddrOf(i), FALSE>> \in Res.labels
\* an external reference leaves a word to be patched, and only .fill can be one
RelOk == Good => \A r \in Res.rel : <<r[1], 0>> \in Res.init /\ \E x \in Res.labels : x[1] = r[2] /\ x[3]
\* PC-relative operands resolve to the label
UseOk == (Good /\ ~Res.unspec) => \A i \in DOMAIN ss : Is(i, "LD") =>
            LET w == (CHOOSE c \in Res.init : c[1] = AddrOf(i))[2] IN
            \E x \in Res.labels : x[1] = Bu /\ Wrap(AddrOf(i) + 1 + SVal(w % 512, 9)) = x[2]
=============================================================================
