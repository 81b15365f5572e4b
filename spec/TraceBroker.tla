---------------------------- MODULE TraceBroker ----------------------------
(***************************************************************************)
(* Is a trace recorded from the real broker a behaviour of Broker?         *)
(*                                                                         *)
(* Events, each with the (virtual) time t at which it was recorded:        *)
(*   call  p, op, res   call p begins; its eventual result is attached,    *)
(*         given        and the UID of the message given to its handler    *)
(*   ret   p            call p returned                                    *)
(*   hs    p, m         the handler of receive p was given message m       *)
(*   he    p            that handler returned                              *)
(*   cancel c           context c was cancelled                            *)
(*   quiet              every goroutine was blocked                        *)
(*   end                the last event: everything should be over          *)
(* Of digests only the receives they make are looked at (see TraceDigest). *)
(* Any other event (stuck, panic, race, crash) is explained by nothing.    *)
(* Time only moves on when every goroutine is blocked, so the state must   *)
(* also be quiet whenever the time of the next event is later than now.    *)
(*                                                                         *)
(* Internal steps are taken only before events they may be needed for: a   *)
(* call or a cancellation never disables one.                              *)
(***************************************************************************)
EXTENDS Broker, Json

VARIABLES tid, i, st
tvars == <<tid, i, st>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug  == "DEBUG" \in DOMAIN IOEnv
Evs == Traces[tid].ev
Ev  == Evs[i + 1]

TInit == /\ tid \in 1..Len(Traces) /\ i = 0 /\ st = BInit(Traces[tid].cfg)

Digests(k) == {Evs[j].p : j \in {j \in 1..k : Evs[j].e = "call" /\ Evs[j].op.o = "digest"}}

Later == Ev.t > st.now

\* the message is the one that was published
Same(m, v) == IF StrictPayload THEN m = v ELSE m.id = v.id

\* a session may be opened before all is quiet
NextQuiet == Min({j \in (i + 1)..Len(Evs) : j = Len(Evs) \/ Evs[j].e \in {"quiet", "end"} \/ Evs[j].t > st.now})
Opens == \/ \E x \in st.ops : x.op.o = "open" /\ x.ph = "call"
         \/ \E j \in (i + 1)..NextQuiet : Evs[j].e = "call" /\ Evs[j].op.o = "open"

Internal ==
  /\ Later \/ Ev.e \in {"ret", "hs", "quiet", "end"}
  /\ LET short == Shortcut(st, Opens)
     IN IF short # {} THEN st' = CHOOSE x \in short : TRUE ELSE st' \in Step(st)
  /\ UNCHANGED <<tid, i>>

Advance ==
  /\ Later
  /\ Quiet(st)
  /\ st' = [st EXCEPT !.now = Min({Ev.t} \cup Moments(st, Ev.t))]
  /\ UNCHANGED <<tid, i>>

Event ==
  /\ ~Later
  /\ i' = i + 1
  /\ UNCHANGED tid
  /\ CASE Ev.e \in {"dh", "cancelled"} \/ (Ev.e = "call" /\ Ev.op.o = "digest") \/ (Ev.e = "ret" /\ Ev.p \in Digests(i)) -> st' = st
       [] Ev.e = "call" ->
            st' = [st EXCEPT !.ops = @ \cup {[p |-> Ev.p, op |-> Ev.op, t0 |-> Ev.t, ph |-> "call", ses |-> 0, m |-> <<>>,
                                              r |-> "", want |-> IF Ev.given # "" THEN "handled" ELSE Ev.res.err,
                                              get |-> IF Ev.given # "" THEN Ev.given ELSE IF Ev.res.err = "?" THEN "?" ELSE ""]}]
       [] Ev.e = "ret" ->
            \E x \in st.ops :
              /\ x.p = Ev.p /\ x.ph = "done"
              /\ st' = IF x.op.o = "sub" /\ x.r = "ok" THEN [st EXCEPT !.ops = @ \ {x}, !.ids = @ \cup {[s |-> x.op.s, id |-> Ev.res.id]}]
                       ELSE [st EXCEPT !.ops = @ \ {x}]
              \* a subscriber has an ID of its own and knows its topic
              /\ (x.op.o = "sub" /\ x.r = "ok" /\ Strict({"C05"})) =>
                    /\ Ev.res.topic = x.op.topic
                    /\ Ev.res.id # "" /\ \A d \in st.ids : d.id # Ev.res.id
              /\ (x.op.o = "unsub" /\ Strict({"C05"})) =>
                    /\ Ev.res.topic = Sub(st, x.op.s).topic
                    /\ \A d \in st.ids : d.s = x.op.s => d.id = Ev.res.id
       [] Ev.e = "hs" ->
            \E x \in st.ops :
              /\ x.p = Ev.p /\ x.ph = "got" /\ Same(x.m[1], Ev.m)
              /\ st' = [st EXCEPT !.ops = (@ \ {x}) \cup {[x EXCEPT !.ph = "handling"]}]
       [] Ev.e = "he" ->
            \E x \in st.ops :
              /\ x.p = Ev.p /\ x.ph = "handling"
              /\ st' = [st EXCEPT !.ops = (@ \ {x}) \cup {[x EXCEPT !.ph = "done", !.r = "any"]}]
       [] Ev.e = "cancel" -> st' = [st EXCEPT !.canc = @ \cup {Ev.c}]
       [] Ev.e = "quiet" -> Quiet(st) /\ st' = st
       [] Ev.e = "end" -> /\ Quiet(st)
                          /\ st' = st
       [] OTHER -> FALSE

TNext == i < Len(Evs) /\ (Internal \/ Advance \/ Event)

Report ==
  /\ (i = Len(Evs)) => PrintT("ACC " \o ToString(tid))
  /\ Debug => PrintT("AT " \o ToString(tid) \o " " \o ToString(i) \o " " \o ToString(st))
=============================================================================
