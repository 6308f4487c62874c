------------------------------- MODULE T_C05 -------------------------------
(* Literals.  <<"num", form, neg, lo, hi, outcome, delta>>: every literal of *)
(* magnitude lo..hi (negated if neg) in that operand position had this       *)
(* outcome: 0 accepted with value (written value + delta), -1 rejected.      *)
EXTENDS TraceBase, Parse
FieldOk(form, v) ==
  CASE form = "imm5" -> FitsS(v, 5) [] form = "off6" -> FitsS(v, 6)
    [] form = "pc9" -> FitsS(v, 9) [] form = "pc11" -> FitsS(v, 11)
    [] form = "trap" -> FitsU(v, 8) [] form = "orig" -> FitsU(v, 16)
    [] form = "blkw" -> FitsU(v, 16) /\ v # 0
    [] form = "fill" -> TRUE
LitOk(neg, m) == IF neg THEN m <= 32768 ELSE m <= 65535
Denotes(form, v) == IF form = "fill" THEN Wrap(v) ELSE v
NumMM(form, neg, m, out, d) ==
  LET v == IF neg THEN -m ELSE m IN
  IF LitOk(neg, m) /\ FieldOk(form, v) THEN out = 0 /\ v + d = Denotes(form, v) ELSE out = -1
MM(i, k) ==
  LET e == Traces[i].ev[k] IN
  CASE e[1] = "num" -> LET bad == {m \in e[4]..e[5] : ~NumMM(e[2], e[3], m, e[6], e[7])} IN
                       IF bad = {} THEN {} ELSE {"literal " \o ToString(CHOOSE m \in bad : TRUE)}
    [] e[1] = "reg" -> IF (IF e[2] <= 7 THEN e[3] = 0 /\ e[4] = e[2] ELSE e[3] = -1) THEN {} ELSE {"register"}
    [] e[1] = "text" -> LET p == ParseText(e[2]) IN
         IF p = Unspec THEN {}
         ELSE IF p = Bad THEN (IF e[3][1] = "err" THEN {} ELSE {"accepted"})
         ELSE IF e[3] = p THEN {} ELSE {"rejected or wrong value"}
============================================================================
