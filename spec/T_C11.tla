------------------------------- MODULE T_C11 -------------------------------
(* Calls of the OS routines.  Also ("image" events) the OS image itself,    *)
(* run on the specification's machine.                                      *)
EXTENDS TraceBase, StepTrace, Os
Call(e) ==
  LET p == e.pre  q == e.post  halt == e.trap = 37 IN
  IF e.end = "panic" THEN {"panic"}
  ELSE Aspect(e.end = IF halt THEN "halt halt halt " ELSE "ret", "did not return or halt")
  \cup (IF e.end \notin {"ret", "halt halt halt "} THEN {} ELSE
    Aspect(e.out = Output(e.trap, p.r[1], e.str, p.kb), "output")
    \cup Aspect(e.kb2 = InputLeft(e.trap, p.kb), "input")
    \cup Aspect(e.early = 0, "device used before it was ready")
    \cup Aspect(\A j \in DOMAIN e.diff : ~InUser(e.diff[j][1]), "user memory")
    \cup (IF halt THEN {} ELSE
      Aspect(q.r[1] = R0After(e.trap, p.r[1], p.kb), "R0")
      \cup Aspect(\A j \in 2..8 : q.r[j] = p.r[j], "registers")
      \cup Aspect(CC(q.psr) = CC(p.psr), "condition codes")
      \cup Aspect(IsPriv(q.psr) = IsPriv(p.psr) /\ Prio(q.psr) = Prio(p.psr), "privilege")
      \cup Aspect(q.ssp = p.ssp, "saved stack pointer")
      \cup Aspect(q.pc = AddW(p.pc, 1), "pc")))

\* --- the image on the specification's machine: at most n steps
G(e) == [real |-> e.real, ign |-> FALSE, ireg |-> <<<<65532, "PSR">>, <<65534, "MCR">>>>,
         own |-> <<<<KBSR, "kb">>, <<KBDR, "kb">>, <<DSR, "ds">>, <<DDR, "ds">>>>, devs |-> <<>>]
RECURSIVE Steps(_, _, _, _)
Steps(c, g, stop, n) ==
  IF n = 0 \/ c.pc = stop THEN c
  ELSE LET os == Step([c EXCEPT !.rd = {}, !.wr = {}, !.fr = <<>>, !.bad = {}], g)  o == CHOOSE x \in os : TRUE IN
       IF o.res # "ok" \/ Cardinality(os) # 1 THEN [c EXCEPT !.bad = {"error"}] ELSE Steps(o.c, g, stop, n - 1)
Image(mem, e) ==
  LET at == 12304
      image == [a \in 0..(Len(mem) - 1) \cup 12160..12287 |-> IF a < Len(mem) THEN mem[a + 1] ELSE 0]   \* and a stack
      str == [a \in {16384 + j - 1 : j \in DOMAIN e.str} |-> e.str[a - 16383]]
      psr == e.cc + IF e.user THEN 32768 ELSE 0
      c == [m |-> (at :> (61440 + e.trap)) @@ str @@ image, r |-> e.r, pc |-> at, psr |-> psr, ssp |-> IF e.user THEN 12288 ELSE 65000, mcr |-> TRUE,
            kb |-> e.kb, kbie |-> FALSE, out |-> <<>>, log |-> <<>>, rd |-> {}, wr |-> {}, fr |-> <<>>, bad |-> {}, unspec |-> FALSE, halt |-> FALSE, v |-> 0]
      d == Steps(c, G(e), at + 1, 3000) IN
  Aspect(d.pc = at + 1 /\ d.bad = {}, "image: did not return") \cup Aspect(d.out = Output(e.trap, e.r[1], e.str, e.kb), "image: output")
  \cup Aspect(d.kb = InputLeft(e.trap, e.kb), "image: input")
  \cup Aspect(d.r = [e.r EXCEPT ![1] = R0After(e.trap, e.r[1], e.kb)], "image: registers")
  \cup Aspect(d.psr = psr /\ d.ssp = c.ssp, "image: psr")
  \cup Aspect(\A a \in DOMAIN d.m : InUser(a) => a \in DOMAIN c.m /\ d.m[a] = c.m[a], "image: user memory")
MM(i, k) == LET e == Traces[i].ev[k] IN IF "image" \in DOMAIN e THEN Image(Traces[i].mem, e) ELSE Call(e)
============================================================================
