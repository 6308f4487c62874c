------------------------------ MODULE Offsets ------------------------------
(* Bounded offsets (C35).  New: the value is held iff it is representable. *)
EXTENDS Word16
Fits(x, n, signed)  == IF signed THEN FitsS(x, n) ELSE FitsU(x, n)
Trunc(x, n, signed) == IF signed THEN SVal(x % P2(n), n) ELSE x % P2(n)
============================================================================
