---------------------------- MODULE MC_Offsets ----------------------------
(* One state per width; every 16-bit value is examined in it.             *)
EXTENDS Offsets
VARIABLES n, signed, ph
Dom(s) == IF s THEN -32768..32767 ELSE 0..65535
Init == n \in 1..16 /\ signed \in BOOLEAN /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<n, signed>>
Spec == Init /\ [][Next]_<<n, signed, ph>>
\* truncation is the identity exactly on the representable values, and always representable
TruncFits == ph = 1 => \A x \in Dom(signed) :
   /\ Fits(Trunc(x, n, signed), n, signed)
   /\ (Trunc(x, n, signed) = x) <=> Fits(x, n, signed)
   /\ (Trunc(x, n, signed) - x) % P2(n) = 0
===========================================================================
