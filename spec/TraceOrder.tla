----------------------------- MODULE TraceOrder -----------------------------
(***************************************************************************)
(* C02 on its own: are the messages of a topic taken off it in the order   *)
(* in which they were published, as far as that order is certain?          *)
(*                                                                         *)
(* Nothing else about the broker is demanded here: messages may get lost,  *)
(* be handed out twice (but in order) and so on; Broker says what else is  *)
(* required.                                                               *)
(* Publishing A and publishing B are ordered if the first returned before  *)
(* the second began; the same for receiving.  Messages can be taken in     *)
(* publishing order iff no A was published before some B of its topic and  *)
(* received after it (two interval orders are compatible iff no pair       *)
(* contradicts them).                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json

VARIABLES tid, i, wait, out, recv
tvars == <<tid, i, wait, out, recv>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug  == "DEBUG" \in DOMAIN IOEnv
Evs == Traces[tid].ev
Ev  == Evs[i + 1]

\* wait  published, not handed out: [p, t, m, c call, r return, 0 if none yet]
\* out   handed out: [t, m, c call and r return of the publish, h when its handler started]
\* recv  receives in flight: [p, c]
TInit == tid \in 1..Len(Traces) /\ i = 0 /\ wait = {} /\ out = {} /\ recv = {}

TNext ==
  /\ i < Len(Evs) /\ i' = i + 1 /\ UNCHANGED tid
  /\ CASE Ev.e = "call" ->
            /\ recv' = recv \cup (IF Ev.op.o = "recv" THEN {[p |-> Ev.p, c |-> i]} ELSE {})
            /\ wait' = wait \cup (IF Ev.op.o = "pub" THEN {[p |-> Ev.p, t |-> Ev.op.topic, m |-> Ev.op.m, c |-> i, r |-> 0]} ELSE {})
            /\ out' = out
       [] Ev.e = "ret" ->
            /\ recv' = {x \in recv : x.p # Ev.p}
            /\ wait' = {w \in wait : w.p # Ev.p} \cup
                       (IF Ev.res.err = "ok" THEN {[w EXCEPT !.r = i] : w \in {w \in wait : w.p = Ev.p}} ELSE {})
            /\ out' = out
       [] Ev.e = "hs" ->
            LET S == {w \in wait : w.m = Ev.m}
                D == {o \in out : o.m = Ev.m}
            IN /\ UNCHANGED recv
               /\ IF S = {} THEN
                    /\ UNCHANGED <<wait, out>>
                    \* handed out again: at least not after later ones
                    /\ D = {} \/ \E w \in D, x \in recv :
                         x.p = Ev.p /\ ~\E o \in out : o.t = w.t /\ w.r # 0 /\ w.r < o.c /\ o.h < x.c
                  ELSE \E w \in S, x \in recv :
                         /\ x.p = Ev.p
                         /\ ~\E o \in out : o.t = w.t /\ w.r # 0 /\ w.r < o.c /\ o.h < x.c
                         /\ wait' = wait \ {w}
                         /\ out' = out \cup {[t |-> w.t, m |-> w.m, c |-> w.c, r |-> w.r, h |-> i]}
       [] Ev.e \in {"he", "cancel", "cancelled", "quiet", "end"} -> UNCHANGED <<wait, out, recv>>
       [] OTHER -> FALSE

Report ==
  /\ (i = Len(Evs)) => PrintT("ACC " \o ToString(tid))
  /\ Debug => PrintT("AT " \o ToString(tid) \o " " \o ToString(i) \o " " \o ToString([handed_out |-> out, waiting |-> wait]))
=============================================================================
