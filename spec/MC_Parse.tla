------------------------------ MODULE MC_Parse ------------------------------
(* The grammar itself, on every text made of few pieces: lexing is total,    *)
(* tokens and statements are ordered and inside the text, and neither blanks *)
(* and comments at line ends, nor line-end style, nor letter case matter.    *)
EXTENDS Parse
Pieces == { <<65,68,68,32>>, <<82,49>>, <<44>>, <<35,45,49>>, <<120,70>>, <<76>>, <<58>>, <<10>>, <<13,10>>,
            <<46,102,105,108,108,32>>, <<76,68,32>>, <<59,34>>, <<46,115,116,114,105,110,103,122>>, <<34,65,92,110,34>>,
            <<34>>, <<92>>, <<78,79,80>>, <<32>>, <<195,137>>, <<46,101,110,100>> }
CONSTANT Depth
VARIABLES txt, n
Init == txt = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E p \in Pieces : txt' = txt \o p
Spec == Init /\ [][Next]_<<txt, n>>

Ordered(ts) == \A i \in DOMAIN ts : /\ 0 <= ts[i][3] /\ ts[i][3] <= ts[i][4] /\ ts[i][4] <= Len(txt)
                                    /\ (i > 1 => ts[i - 1][4] <= ts[i][3])
TokensOk == Ordered(Lex(txt))
Ok == ParseText(txt)[1] = "ok"
StmtsOk == Ok => /\ Ordered(ParseText(txt)[2])
                 /\ \A i \in DOMAIN ParseText(txt)[2] : \A k \in DOMAIN ParseText(txt)[2][i][1] :
                      ParseText(txt)[2][i][1][k][3] <= ParseText(txt)[2][i][3]
\* replace every newline (not preceded by CR) by " ;c CR LF"
RECURSIVE Relay(_)
Relay(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] = 13 THEN Relay(Tail(s))
            ELSE IF s[1] = 10 THEN <<9, 59, 99, 13, 10>> \o Relay(Tail(s))
            ELSE <<s[1]>> \o Relay(Tail(s))
LayoutFree == Ok => ParseText(Relay(txt))[1] = "ok" /\ StripAll(ParseText(Relay(txt))[2]) = StripAll(ParseText(txt)[2])
\* letter case: everything but names and strings
Lo(c) == IF c \in Upper THEN c + 32 ELSE c
LoSeq(b) == [i \in DOMAIN b |-> IF i > 1 /\ b[i - 1] = 195 THEN (IF b[i] + 32 \in LowLatin2 THEN b[i] + 32 ELSE b[i]) ELSE Lo(b[i])]
CaseFree == (Ok /\ 34 \notin {txt[i] : i \in DOMAIN txt}) =>
            LET a == ParseText(LoSeq(txt)) IN
            a[1] = "ok" /\ Len(a[2]) = Len(ParseText(txt)[2])
            /\ \A i \in DOMAIN a[2] : a[2][i][2][1] = ParseText(txt)[2][i][2][1] /\ a[2][i][3] = ParseText(txt)[2][i][3] /\ a[2][i][4] = ParseText(txt)[2][i][4]
=============================================================================
