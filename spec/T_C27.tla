------------------------------- MODULE T_C27 -------------------------------
(* The frame stack before and after each recorded step.  A trace's defs are *)
(* the registered signatures: <<address, "cc", count>> (arguments on the    *)
(* stack from R6 up) or <<address, "reg", registers>>.                      *)
EXTENDS TraceBase, StepTrace
TrapDefs == <<<<32, "reg", <<>>>>, <<33, "reg", <<0>>>>, <<34, "reg", <<0>>>>, <<35, "reg", <<>>>>, <<36, "reg", <<0>>>>, <<37, "reg", <<>>>>>>
ArgsOf(d, k0) ==
  IF d[2] = "cc" THEN [j \in 1..d[3] |-> At(k0, AddW(k0.r[7], j - 1))]
  ELSE [j \in DOMAIN d[3] |-> k0.r[d[3][j] + 1]]
Find(ds, a) == LET ix == {j \in DOMAIN ds : ds[j][1] = a} IN IF ix = {} THEN <<>> ELSE ds[CHOOSE j \in ix : TRUE]
Args(op, k0, defs) ==
  LET d == IF op[4] = "sub" THEN Find(defs, op[3]) ELSE IF op[4] = "trap" THEN Find(TrapDefs, op[3]) ELSE <<>> IN
  IF d = <<>> THEN <<>> ELSE ArgsOf(d, k0)
Kinds(kind) == IF kind = "exc" THEN {"trap", "int"} ELSE {kind}
DepthAfter(d, fr) == IF fr = <<>> THEN d ELSE IF fr[1][1] = "push" THEN d + 1 ELSE IF d = 0 THEN 0 ELSE d - 1
Frames(e, k0, o, defs, tracked) ==
  LET fr == o.c.fr  a == e.fs[1]  b == e.fs[2]  n == Len(b) IN
  Aspect(e.post.fl = DepthAfter(e.pre.fl, fr), "depth")
  \cup (IF ~tracked THEN {} ELSE
    Aspect(n = e.post.fl, "number of frames")
    \cup (IF fr = <<>> THEN Aspect(a = b, "frames")
          ELSE IF fr[1][1] = "pop" THEN Aspect(b = (IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1)), "frames after return")
          ELSE IF n # Len(a) + 1 THEN {"no new frame"}
          ELSE LET f == b[n]  op == fr[1] IN
            Aspect(SubSeq(b, 1, n - 1) = a, "other frames")
            \cup Aspect("call" \in DOMAIN e \/ f[1] = op[2], "caller") \cup Aspect(f[2] = op[3], "callee")
            \cup Aspect(f[3] \in Kinds(op[4]), "kind") \cup Aspect(f[5] = Args(op, k0, defs), "arguments")))
\* the host calls a subroutine (where it says the call was is its own business)
HostCall(k0, a) == [c |-> [SetR(k0, 7, k0.pc) EXCEPT !.pc = a, !.fr = <<<<"push", k0.pc, a, "sub">>>>], ok |-> TRUE]
\* n calls from one place to itself, then k returns
Deep(e, tracked) ==
  LET d == IF e.k >= e.n THEN 0 ELSE e.n - e.k IN
  Aspect(e.res = "ok", "result") \cup Aspect(e.fl = d, "depth")
  \cup (IF ~tracked THEN {} ELSE Aspect(e.len = d, "number of frames")
        \cup Aspect(\A j \in DOMAIN e.sample : LET f == e.sample[j] IN f[1] = e.deep /\ f[2] = e.deep /\ f[3] = "sub" /\ f[5] = <<>>, "frames"))
MM(i, k) ==
  LET t1 == Traces[i]  e == t1.ev[k] IN
  IF "deep" \in DOMAIN e THEN Deep(e, t1.tracked) ELSE
  LET k0 == CoreOf(e)  os == Step(k0, e.g) IN
  IF e.res = "panic" THEN {"panic"}
  ELSE IF "call" \in DOMAIN e THEN Frames(e, k0, HostCall(k0, e.call), t1.defs, t1.tracked)
  ELSE Best(os, LAMBDA o : Frames(e, k0, o, t1.defs, t1.tracked))
============================================================================
