------------------------------ MODULE Word16 ------------------------------
(* 16-bit words, bit fields, sign extension: plain arithmetic on naturals.  *)
EXTENDS Integers, Sequences, Bitwise

W == 65536
Word == 0..65535

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
          16384, 32768, 65536, 131072>>
P2(n) == Pow2[n + 1]

Wrap(x)      == x % W                      \* TLA+ % is always non-negative
AddW(a, b)   == (a + b) % W
SubW(a, b)   == (a - b) % W
NotW(a)      == 65535 - a
AndW(a, b)   == a & b
\* bits hi..lo of w
Bits(w, hi, lo) == (w \div P2(lo)) % P2(hi - lo + 1)
Bit(w, i)       == (w \div P2(i)) % 2
\* two's complement value of the n-bit pattern v
SVal(v, n)   == IF v >= P2(n - 1) THEN v - P2(n) ELSE v
\* n-bit pattern of the integer x
Pat(x, n)    == x % P2(n)
FitsS(x, n)  == x >= -P2(n - 1) /\ x <= P2(n - 1) - 1
FitsU(x, n)  == x >= 0 /\ x <= P2(n) - 1
Signed(w)    == SVal(w, 16)
Min2(a, b)   == IF a <= b THEN a ELSE b
Max2(a, b)   == IF a >= b THEN a ELSE b
===========================================================================
