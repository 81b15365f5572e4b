----------------------------- MODULE TraceSpec -----------------------------
(***************************************************************************)
(* Is a trace recorded from the real code a behaviour of a component       *)
(* specification?  Shared by all components whose operations take effect   *)
(* atomically (everything except the broker).                              *)
(*                                                                         *)
(* A component gives                                                       *)
(*   InitSt(cfg)        its initial state for a configuration              *)
(*   Post(st, op, res)  the set of states operation op may lead to from st *)
(*                      when it returns res ({} if it must not return res) *)
(*                                                                         *)
(* A trace is a sequence of events                                         *)
(*   op    an operation that overlapped with nothing, with its result      *)
(*   call  operation of thread p begins (its eventual result is attached)  *)
(*   ret   operation of thread p returned                                  *)
(* Any other event (panic, deadlock, data race, crash) matches no action:  *)
(* no behaviour of the specification contains one.                         *)
(*                                                                         *)
(* Between call and ret an operation takes effect in one silent step Lin,  *)
(* so a concurrent history is accepted iff it is linearizable.  Lin steps  *)
(* are only taken when the next event is the ret of an operation that has  *)
(* not taken effect yet: every linearization can be reordered into this    *)
(* form by delaying silent steps, so nothing is lost.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt(_), Post(_, _, _)

VARIABLES tid, i, st, pend
tvars == <<tid, i, st, pend>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug  == "DEBUG" \in DOMAIN IOEnv

Evs == Traces[tid].ev
Ev  == Evs[i + 1]

TInit ==
  /\ tid \in 1..Len(Traces)
  /\ i = 0
  /\ st = InitSt(Traces[tid].cfg)
  /\ pend = {}

Atomic ==
  /\ Ev.e = "op"
  /\ st' \in Post(st, Ev.op, Ev.res)
  /\ i' = i + 1
  /\ UNCHANGED <<tid, pend>>

Call ==
  /\ Ev.e = "call"
  /\ pend' = pend \cup {[p |-> Ev.p, k |-> i + 1, lin |-> FALSE]}
  /\ i' = i + 1
  /\ UNCHANGED <<tid, st>>

Lin ==
  /\ Ev.e = "ret"
  /\ \E x \in pend : x.p = Ev.p /\ ~x.lin
  /\ \E x \in pend :
       /\ ~x.lin
       /\ st' \in Post(st, Evs[x.k].op, Evs[x.k].res)
       /\ pend' = (pend \ {x}) \cup {[x EXCEPT !.lin = TRUE]}
  /\ UNCHANGED <<tid, i>>

Ret ==
  /\ Ev.e = "ret"
  /\ \E x \in pend :
       /\ x.p = Ev.p
       /\ x.lin
       /\ pend' = pend \ {x}
  /\ i' = i + 1
  /\ UNCHANGED <<tid, st>>

TNext == i < Len(Evs) /\ (Atomic \/ Call \/ Lin \/ Ret)

\* A constraint that is always true and reports how far each trace got.
Report ==
  /\ (i = Len(Evs)) => PrintT("ACC " \o ToString(tid))
  /\ Debug => PrintT("AT " \o ToString(tid) \o " " \o ToString(i) \o " " \o ToString(st))
=============================================================================
