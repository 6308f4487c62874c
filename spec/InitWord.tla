------------------------------ MODULE InitWord ------------------------------
(* Words with initialisation masks <<value, mask>> over NB-bit words (C15). *)
(* Known(op, a, b): the bits of the result that are the same for every      *)
(* choice of the operands' uninitialised bits -- computed bit by bit.       *)
EXTENDS Integers, Sequences
CONSTANT NB
PW == [i \in 0..NB |-> 2^i]
FULL == PW[NB] - 1
B(x, i) == (x \div PW[i]) % 2

\* three-valued bits: 0, 1, 2 = depends on the choice
TB(a, i) == IF B(a[2], i) = 1 THEN B(a[1], i) ELSE 2
Maj(x, y, z) == IF (x = 1 /\ y = 1) \/ (x = 1 /\ z = 1) \/ (y = 1 /\ z = 1) THEN 1
                ELSE IF (x = 0 /\ y = 0) \/ (x = 0 /\ z = 0) \/ (y = 0 /\ z = 0) THEN 0 ELSE 2
Neg3(x) == IF x = 2 THEN 2 ELSE 1 - x
Xor3(x, y, z) == IF x = 2 \/ y = 2 \/ z = 2 THEN 2 ELSE (x + y + z) % 2

RECURSIVE SumBits(_, _, _, _, _)
\* sequence of three-valued sum bits, lowest first; sub = TRUE complements b
SumBits(a, b, sub, c, i) ==
  IF i = NB THEN <<>>
  ELSE LET x == TB(a, i)  y == IF sub THEN Neg3(TB(b, i)) ELSE TB(b, i) IN
       <<Xor3(x, y, c)>> \o SumBits(a, b, sub, Maj(x, y, c), i + 1)

And3(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = 1 /\ y = 1 THEN 1 ELSE 2

\* the three-valued result of  a op b
Result3(op, a, b) ==
  CASE op = "add" -> SumBits(a, b, FALSE, 0, 0)
    [] op = "sub" -> SumBits(a, b, TRUE, 1, 0)
    [] op = "and" -> [i \in 1..NB |-> And3(TB(a, i-1), TB(b, i-1))]
    [] op = "not" -> [i \in 1..NB |-> Neg3(TB(a, i-1))]

\* r is a sound result: what it calls initialised is determined, with that value
Sound(op, a, b, r) ==
  LET k == Result3(op, a, b) IN
  \A i \in 0..(NB-1) : B(r[2], i) = 1 => k[i+1] = B(r[1], i)

Val(op, x, y) == CASE op = "add" -> (x + y) % PW[NB] [] op = "sub" -> (x - y) % PW[NB]
                   [] op = "not" -> FULL - x
                   [] op = "and" -> LET RECURSIVE f(_) f(i) == IF i = NB THEN 0 ELSE B(x,i)*B(y,i)*PW[i] + f(i+1) IN f(0)
\* fully initialised operands give the fully initialised wrapping value
Full(op, a, b, r) ==
  (a[2] = FULL /\ (op = "not" \/ b[2] = FULL)) => r = <<Val(op, a[1], b[1]), FULL>>
=============================================================================
