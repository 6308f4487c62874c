------------------------------- MODULE Ports -------------------------------
(* Who answers at the I/O addresses.  A state s:                            *)
(*   own   I/O address -> device id (ids 1 and 2: keyboard and display)     *)
(*   dev   device id -> what is attached: <<"rec", name>> (a device that    *)
(*         records its calls), <<"buf", name>> (a byte buffer), <<"none">>  *)
(*   used  every id ever given out          ireg  address -> register       *)
(*   reg   register -> value                mem   address -> word           *)
(*   buf   buffer name -> bytes             ie    keyboard interrupts on?   *)
EXTENDS Word16, Sequences, FiniteSets, TLC
IoLo == 65024
KBSR == 65024  KBDR == 65026  DSR == 65028  DDR == 65030
Fixed == {1, 2}
\* the bits of a PSR that exist, with one condition code
PsrOf(v) == LET w == (v \div 32768) * 32768 + ((v \div 256) % 8) * 256 + (v % 8) IN IF v % 8 \in {1, 2, 4} THEN w ELSE w - (v % 8) + 2
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Init0 == [own |-> (KBSR :> 1) @@ (KBDR :> 1) @@ (DSR :> 2) @@ (DDR :> 2),
          dev |-> (1 :> <<"none">>) @@ (2 :> <<"none">>), used |-> {0, 1, 2},
          ireg |-> (65532 :> "PSR") @@ (65534 :> "MCR"),
          reg |-> [PC |-> 12288, PSR |-> 32770, MCR |-> 0, SSP |-> 12288],
          mem |-> [a \in {} |-> 0], buf |-> [a \in {} |-> <<>>], ie |-> FALSE]
Mem(s, a) == IF a \in DOMAIN s.mem THEN s.mem[a] ELSE 0

\* --- configuration
CanAdd(s, ports) == \A p \in ports : p >= IoLo /\ p \notin DOMAIN s.own
Add(s, id, d, ports) == [s EXCEPT !.own = [p \in ports |-> id] @@ @, !.dev = (id :> d) @@ @, !.used = @ \cup {id}]
Remove(s, id) ==
  IF id \in Fixed THEN [s EXCEPT !.dev[id] = <<"none">>]
  ELSE [s EXCEPT !.dev = Without(@, {id}), !.own = Without(@, {p \in DOMAIN @ : s.own[p] = id})]
Replace(s, id, d) == [s EXCEPT !.dev[id] = d, !.ie = IF id = 1 THEN FALSE ELSE @]
Map(s, a, reg) == [s EXCEPT !.ireg = (a :> reg) @@ @]
Unmap(s, a) == [s EXCEPT !.ireg = Without(@, {a})]

\* --- who is reached at an address
Reached(s, a) ==
  IF a < IoLo THEN <<"mem">>
  ELSE IF a \in DOMAIN s.ireg THEN <<"ireg", s.ireg[a]>>
  ELSE IF a \in DOMAIN s.own THEN s.dev[s.own[a]]
  ELSE <<"none">>
\* --- accesses: [s, v: the value read, call: the call a recording device sees]
Nothing(s, a) == [s |-> s, v |-> Mem(s, a), call |-> <<>>]
Got(s, a, v) == [s |-> [s EXCEPT !.mem = (a :> v) @@ @], v |-> v, call |-> <<>>]
\* ans: what the recording device answers (-1: nothing)
Rd(s, a, eff, ans) ==
  LET w == Reached(s, a) IN
  CASE w[1] = "mem" -> Nothing(s, a)
    [] w[1] = "none" -> Nothing(s, a)
    [] w[1] = "ireg" -> Got(s, a, s.reg[w[2]])
    [] w[1] = "rec" -> [(IF ans < 0 THEN Nothing(s, a) ELSE Got(s, a, ans)) EXCEPT !.call = <<IF eff THEN "r" ELSE "q", w[2], a, ans>>]
    [] w[1] = "buf" ->
       LET b == s.buf[w[2]]  id == s.own[a] IN
       IF id = 1 /\ a = KBSR THEN Got(s, a, (IF b # <<>> THEN 32768 ELSE 0) + (IF s.ie THEN 16384 ELSE 0))
       ELSE IF id = 1 /\ a = KBDR /\ b # <<>> THEN Got(IF eff THEN [s EXCEPT !.buf[w[2]] = Tail(b)] ELSE s, a, Head(b))
       ELSE IF id = 2 /\ a = DSR THEN Got(s, a, 32768)
       ELSE Nothing(s, a)
Stored(s, a, v) == [s |-> [s EXCEPT !.mem = (a :> v) @@ @], call |-> <<>>]
Ignored(s) == [s |-> s, call |-> <<>>]
RegSet(s, reg, v) == [s EXCEPT !.reg[reg] = IF reg = "PSR" THEN PsrOf(v) ELSE IF reg = "MCR" THEN (v \div 32768) * 32768 ELSE v]
\* acc: whether the recording device accepts
Wr(s, a, v, acc) ==
  LET w == Reached(s, a) IN
  CASE w[1] = "mem" -> Stored(s, a, v)
    [] w[1] = "none" -> Ignored(s)
    [] w[1] = "ireg" -> Stored(RegSet(s, w[2], v), a, v)
    [] w[1] = "rec" -> [(IF acc THEN Stored(s, a, v) ELSE Ignored(s)) EXCEPT !.call = <<"w", w[2], a, v, acc>>]
    [] w[1] = "buf" ->
       LET id == s.own[a] IN
       IF id = 1 /\ a = KBSR THEN Stored([s EXCEPT !.ie = ((v \div 16384) % 2 = 1)], a, v)
       ELSE IF id = 2 /\ a = DDR THEN Stored([s EXCEPT !.buf[w[2]] = Append(@, v % 256)], a, v)
       ELSE Ignored(s)
============================================================================
