---------------------------- MODULE MC_InitWord ----------------------------
(* Design check at NB bits: Result3 is exact -- a bit is determined iff it *)
(* has the same value for every choice of the operands' uninitialised bits *)
(* -- and the propagation rule the simulator is meant to use is sound.     *)
EXTENDS InitWord
VARIABLES a, b, op
N == 0..FULL
Init == a \in N \X N /\ b \in N \X N /\ op \in {"add", "sub", "and", "not"}
Next == FALSE /\ UNCHANGED <<a, b, op>>
Spec == Init /\ [][Next]_<<a, b, op>>
Choices(w) == {x \in N : \A i \in 0..(NB-1) : B(w[2], i) = 1 => B(x, i) = B(w[1], i)}
Exact == LET r == Result3(op, a, b)
             vs == {Val(op, x, y) : x \in Choices(a), y \in Choices(b)} IN
  \A i \in 0..(NB-1) : IF r[i+1] = 2 THEN {B(v, i) : v \in vs} = {0, 1}
                       ELSE {B(v, i) : v \in vs} = {r[i+1]}
\* the propagation rule: all-or-nothing for sums (with the zero shortcuts), per bit for and/not
Rule == LET bits(f(_)) == LET RECURSIVE g(_) g(i) == IF i = NB THEN 0 ELSE f(i)*PW[i] + g(i+1) IN g(0) IN
  CASE op = "add" -> IF b = <<0, FULL>> THEN a ELSE IF a = <<0, FULL>> THEN b
                     ELSE <<Val(op, a[1], b[1]), IF a[2] = FULL /\ b[2] = FULL THEN FULL ELSE 0>>
    [] op = "sub" -> IF b = <<0, FULL>> THEN a
                     ELSE <<Val(op, a[1], b[1]), IF a[2] = FULL /\ b[2] = FULL THEN FULL ELSE 0>>
    [] op = "and" -> <<Val(op, a[1], b[1]),
                       bits(LAMBDA i : IF \/ B(a[2],i) = 1 /\ B(b[2],i) = 1
                                          \/ B(a[2],i) = 1 /\ B(a[1],i) = 0
                                          \/ B(b[2],i) = 1 /\ B(b[1],i) = 0 THEN 1 ELSE 0)>>
    [] op = "not" -> <<Val(op, a[1], b[1]), a[2]>>
RuleSound == Sound(op, a, b, Rule) /\ Full(op, a, b, Rule)
============================================================================
