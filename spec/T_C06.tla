------------------------------- MODULE T_C06 -------------------------------
(* Decoding and encoding recorded from the real code, against Isa.         *)
EXTENDS TraceBase, Isa
Expect(w) == LET d == Decode(w) IN
   IF d[1] = "ok" THEN <<"ok", d[2], Encode(d[2])>> ELSE d
MM(i, k) == LET e == Traces[i].ev[k] IN
  CASE e[1] = "D" -> IF e[3] = Expect(e[2]) THEN {} ELSE {"decode"}
    [] e[1] = "E" -> (IF e[3] = Encode(e[2]) THEN {} ELSE {"encode"})
                     \cup (IF e[4] = <<"ok", e[2], Encode(e[2])>> THEN {} ELSE {"decode of encoding"})
============================================================================
