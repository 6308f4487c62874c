------------------------------ MODULE MC_Isa ------------------------------
(* Exhaustive check of the ISA specification itself: one state per 16-bit  *)
(* word and one per representable instruction.                             *)
EXTENDS Isa, TLC
VARIABLES w, i
None == <<"none">>
Init == \/ w \in Word /\ i = None
        \/ w = -1 /\ \/ i \in FBr \/ i \in FAluR \/ i \in FAluI
                     \/ \E op \in PcOps : i \in FPc(op)
                     \/ i \in FBase \/ i \in FJsr \/ i \in FReg \/ i \in FNot
                     \/ i \in FTrap \/ i = <<"RTI">>
Next == FALSE /\ UNCHANGED <<w, i>>
Spec == Init /\ [][Next]_<<w, i>>
\* a word decodes exactly when it is the encoding of an instruction
DecodeThenEncode == w >= 0 => LET d == Decode(w) IN
   d[1] = "ok" => IsInstr(d[2]) /\ Encode(d[2]) = w
EncodeThenDecode == w < 0 => Decode(Encode(i)) = <<"ok", i>>
Mnemonic == w >= 0 => Mnemonics(w) # {} /\ ((w < 512) => Mnemonics(w) = {".FILL"})
===========================================================================
