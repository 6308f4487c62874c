----------------------------- MODULE Lifecycle -----------------------------
(* The life of a simulator: creation, loading, resetting.  A block is       *)
(* <<start, runs>>, a run <<how many, word>>, the word -1 where the file    *)
(* only reserves.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Length(_, _)
Length(rs, k) == IF k > Len(rs) THEN 0 ELSE rs[k][1] + Length(rs, k + 1)
\* runs of the same word, joined
RECURSIVE Join(_, _)
Join(rs, k) ==
  IF k > Len(rs) THEN <<>>
  ELSE LET t == Join(rs, k + 1) IN
       IF rs[k][1] = 0 THEN t
       ELSE IF t # <<>> /\ t[1][2] = rs[k][2] THEN <<<<rs[k][1] + t[1][1], rs[k][2]>>>> \o Tail(t)
       ELSE <<rs[k]>> \o t
\* Is lo..hi inside the block that starts at b[1] (and may go on at 0)?
Within(b, lo, hi, W) ==
  LET n == Length(b[2], 1)  e == b[1] + n IN
  (lo >= b[1] /\ hi < e) \/ (e > W /\ hi < e - W)
\* the addresses a file's blocks cover, as a set (for small memories)
Covered(b, W) == {(b[1] + j) % W : j \in 0..(Length(b[2], 1) - 1)}
RECURSIVE WordAt(_, _, _)
WordAt(rs, k, j) == IF j < rs[k][1] THEN rs[k][2] ELSE WordAt(rs, k + 1, j - rs[k][1])
\* --- the machine part of a simulator: mem, init (memory, and what is known
\* of it), regs; the configuration part: anything.
Load(m, blocks, W) ==
  LET cover == UNION {Covered(blocks[j], W) : j \in DOMAIN blocks}
      at(a) == LET j == CHOOSE j \in DOMAIN blocks : a \in Covered(blocks[j], W) IN
               WordAt(blocks[j][2], 1, (a - blocks[j][1]) % W) IN
  [m EXCEPT !.mem = [a \in DOMAIN @ |-> IF a \in cover /\ at(a) >= 0 THEN at(a) ELSE @[a]],
            !.init = [a \in DOMAIN @ |-> IF a \in cover THEN at(a) >= 0 ELSE @[a]]]
Reset(s, New(_)) == [mach |-> New(s.conf.flags), conf |-> s.conf]
============================================================================
