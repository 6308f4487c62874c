----------------------------- MODULE TraceBase -----------------------------
(* Generic trace validation.  The file named by the environment variable    *)
(* TRACE holds one recorded trace per line: a JSON object with a field "ev" *)
(* (the events, in order) and any other fields the trace specification      *)
(* needs (initial state, configuration, ...).                               *)
(*                                                                          *)
(* A trace specification extends this module and substitutes, in its .cfg,  *)
(*     Mismatch <- <its operator>                                           *)
(* Mismatch(i, k) is the set of aspects in which event k of trace i differs *)
(* from every step the specification allows in the state reached before it. *)
(* {} = the event is a step of the specification.  Every trace is a         *)
(* behaviour of its own, explored from its own initial state.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Mismatch(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,     \* which trace
          l      \* next event to consume; 0 = rejected
tvars == <<t, l>>

TraceInit == t \in 1..Len(Traces) /\ l = 1

Consume ==
    /\ l > 0
    /\ l <= Len(Traces[t].ev)
    /\ t' = t
    /\ LET m == Mismatch(t, l) IN
         IF m = {}
         THEN l' = l + 1
         ELSE /\ PrintT("REJECT " \o ToString(t) \o " " \o ToString(l) \o " " \o ToJson(m))
              /\ l' = 0

TraceNext == Consume
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
