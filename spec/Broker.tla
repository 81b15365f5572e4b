------------------------------- MODULE Broker -------------------------------
(***************************************************************************)
(* The in-memory broker (pkg/broker/memory): sessions, topics, blocking    *)
(* publish and receive calls, contexts, virtual time.                      *)
(*                                                                         *)
(* The state is a record                                                   *)
(*   ses    the open session, 0 if none          nses  sessions so far     *)
(*   sctx   context the session was opened with  sdl   its deadline        *)
(*   q      undelivered messages of the session by topic, oldest first     *)
(*   subs   subscribers [s, topic, ses, act]                               *)
(*   canc   contexts cancelled so far            now   time                *)
(*   ops    calls in flight                                                *)
(* A call in flight is a record                                            *)
(*   p      its number          op    what was called      t0   when       *)
(*   ph     call -> wait -> got -> handling -> done                        *)
(*   ses    the session it found open when it started                      *)
(*   m      <<message>> it was given       r    its result                 *)
(*   want   the result it is known to return, "?" if not known             *)
(*   get    UID of the message it is known to be given, "?" if not known   *)
(*                                                                         *)
(* Step(st) are the states that one internal step leads to; everything     *)
(* else (calls, returns, handlers, cancellation, time) is up to the user   *)
(* of the module: TraceBroker takes it from a recorded trace, MCBroker     *)
(* tries everything.                                                       *)
(*                                                                         *)
(* PROP relaxes what is demanded to what the property of that name is      *)
(* about; any other value demands everything.  (For C02, the order of      *)
(* messages on its own, see TraceOrder.)                                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils

Forever == 0    \* "no deadline"

PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"
Strict(S) == PROP \in S \/ PROP \notin {"C01", "C03", "C04", "C05", "C06"}

StrictOrder    == Strict({})
StrictCapacity == Strict({"C03"})
StrictTimeout  == Strict({"C03", "C06"})
StrictCtxErr   == Strict({"C06"})
StrictPayload  == Strict({"C01"})
\* which calls have to be over when nothing more can happen
DueMessage == Strict({"C03", "C04", "C05", "C06"})   \* there is room, or a message
DueTimeout == Strict({"C03", "C06"})
DueCancel  == Strict({"C06"})
DueEnd     == Strict({"C04", "C06"})
DueUnsub   == Strict({"C05", "C06"})
DueSession == Strict({"C04"})

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Remove(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

BInit(cfg) ==
  [cap |-> IF cfg.cap < 0 THEN 100 ELSE cfg.cap,
   pto |-> IF cfg.pto = 0 THEN 5000 ELSE cfg.pto,
   ses |-> 0, nses |-> 0, sctx |-> "", sdl |-> Forever,
   q |-> [t \in {cfg.topics[j] : j \in 1..Len(cfg.topics)} |-> <<>>],
   subs |-> {}, ids |-> {}, canc |-> {}, now |-> 0, ops |-> {}]

Sub(st, s)    == CHOOSE x \in st.subs : x.s = s
Active(st, s) == Sub(st, s).act /\ Sub(st, s).ses = st.ses
Topic(st, x)  == IF x.op.o = "recv" THEN Sub(st, x.op.s).topic ELSE x.op.topic

Dl(st, x) == x.t0 + (IF x.op.to # 0 THEN x.op.to ELSE IF x.op.o = "pub" THEN st.pto ELSE 5000)
Late(st, x) == st.now >= Dl(st, x)
Cancelled(st, x) == x.op.ctx \in st.canc \/ (x.op.cdl # Forever /\ st.now >= x.op.cdl)
CtxErrs(st, x) == (IF x.op.ctx \in st.canc THEN {"canceled"} ELSE {})
                  \cup (IF x.op.cdl # Forever /\ st.now >= x.op.cdl THEN {"deadline"} ELSE {})

With(st, x, y) == [st EXCEPT !.ops = (@ \ {x}) \cup {y}]
\* call x is over with result r, if that is what it is known to return
Over(x, r) == IF x.want \in {"?", r} THEN {[x EXCEPT !.ph = "done", !.r = r]} ELSE {}
OverCtx(st, x) == IF StrictCtxErr THEN UNION {Over(x, r) : r \in CtxErrs(st, x)}
                  ELSE IF Cancelled(st, x) /\ x.want # "ok" THEN {[x EXCEPT !.ph = "done", !.r = x.want]} ELSE {}

EndSession(st) == [st EXCEPT !.ses = 0, !.sctx = "", !.sdl = Forever, !.q = [t \in DOMAIN @ |-> <<>>]]
SessionDoomed(st) == st.ses # 0 /\ (st.sctx \in st.canc \/ (st.sdl # Forever /\ st.now >= st.sdl))

\* which message a receive may be given, and what is left of the topic
Takes(q) == IF q = <<>> THEN {}
            ELSE IF StrictOrder THEN {[m |-> q[1].m, rest |-> Tail(q)]}
            ELSE {[m |-> q[j].m, rest |-> Remove(q, j)] : j \in 1..Len(q)}
\* an accepted message joins the others; where order does not matter they are sorted
Put(q, x) ==
  LET e == [p |-> x.p, m |-> x.op.m]
  IN IF StrictOrder THEN Append(q, e)
     ELSE SelectSeq(q, LAMBDA y : y.p < x.p) \o <<e>> \o SelectSeq(q, LAMBDA y : y.p > x.p)

\* ------------------------------------------------------------------- publish
PubSteps(st, x) ==
  IF x.ph = "call" THEN
    {With(st, x, y) : y \in (IF st.ses = 0 THEN Over(x, "ErrNotConnected") ELSE {[x EXCEPT !.ph = "wait", !.ses = st.ses]})
                            \cup OverCtx(st, x)}
  ELSE IF x.ph # "wait" THEN {}
  ELSE LET t == x.op.topic
       IN UNION {
         \* accepted
         IF x.ses = st.ses /\ (~StrictCapacity \/ Len(st.q[t]) < st.cap)
         THEN {[With(st, x, y) EXCEPT !.q[t] = Put(@, x)] : y \in Over(x, "ok")} ELSE {},
         \* handed to a waiting receiver, or to one that times out and discards it
         IF x.ses = st.ses /\ StrictCapacity /\ st.cap = 0
         THEN UNION {
                UNION {IF r.get \in {"?", x.op.m.id}
                       THEN {With(With(st, x, y), r, [r EXCEPT !.ph = "got", !.m = <<x.op.m>>]) : y \in Over(x, "ok")} ELSE {},
                       IF Late(st, r)
                       THEN {With(With(st, x, y), r, z) : y \in Over(x, "ok"), z \in Over(r, "ErrTimeout")} ELSE {}}
                : r \in {r \in st.ops : r.op.o = "recv" /\ r.ph = "wait" /\ r.ses = st.ses /\ Topic(st, r) = t}}
         ELSE {},
         IF ~StrictTimeout \/ Late(st, x) THEN {With(st, x, y) : y \in Over(x, "ErrTimeout")} ELSE {},
         {With(st, x, y) : y \in OverCtx(st, x)},
         IF x.ses # st.ses THEN {With(st, x, y) : y \in Over(x, "ErrNotConnected")} ELSE {}}

\* ------------------------------------------------------------------- receive
RecvSteps(st, x) ==
  IF x.ph = "call" THEN
    {With(st, x, y) : y \in (IF Active(st, x.op.s) THEN {[x EXCEPT !.ph = "wait", !.ses = st.ses]}
                             ELSE Over(x, "ErrSubscriptionInactive"))}
  ELSE IF x.ph # "wait" THEN {}
  ELSE LET t == Topic(st, x)
           live == x.ses = st.ses
       IN UNION {
         IF live THEN {[With(st, x, [x EXCEPT !.ph = "got", !.m = <<k.m>>]) EXCEPT !.q[t] = k.rest] : k \in {k \in Takes(st.q[t]) : x.get \in {"?", k.m.id}}} ELSE {},
         \* one that times out may discard the message at the head
         IF ~StrictTimeout \/ Late(st, x)
         THEN UNION {{With(st, x, y)} \cup (IF live THEN {[With(st, x, y) EXCEPT !.q[t] = k.rest] : k \in Takes(st.q[t])} ELSE {})
                     : y \in Over(x, "ErrTimeout")}
         ELSE {},
         IF Cancelled(st, x) \/ ~live \/ ~Sub(st, x.op.s).act THEN {With(st, x, y) : y \in Over(x, "ok")} ELSE {}}

\* ------------------------------------------------------------- the other calls
OtherSteps(st, x) ==
  IF x.ph # "call" THEN {}
  ELSE LET op == x.op
       IN CASE op.o = "open" ->
                 {With(IF st.ses # 0 THEN st
                       ELSE [st EXCEPT !.ses = st.nses + 1, !.nses = @ + 1, !.sctx = op.ctx, !.sdl = op.cdl], x, y) : y \in Over(x, "ok")}
            [] op.o = "close" -> {With(IF st.ses = 0 THEN st ELSE EndSession(st), x, y) : y \in Over(x, "ok")}
            [] op.o = "sub" ->
                 IF st.ses = 0 THEN {With(st, x, y) : y \in Over(x, "ErrNotConnected")}
                 ELSE {With([st EXCEPT !.subs = @ \cup {[s |-> op.s, topic |-> op.topic, ses |-> st.ses, act |-> TRUE]}], x, y)
                       : y \in Over(x, "ok")}
            [] op.o = "unsub" ->
                 {With([st EXCEPT !.subs = {IF u.s = op.s THEN [u EXCEPT !.act = FALSE] ELSE u : u \in @}], x, y) : y \in Over(x, "ok")}
            [] OTHER -> {}

CallSteps(st, x) == CASE x.op.o = "pub" -> PubSteps(st, x)
                      [] x.op.o = "recv" -> RecvSteps(st, x)
                      [] OTHER -> OtherSteps(st, x)
Step(st) == UNION {CallSteps(st, x) : x \in st.ops}
            \cup (IF SessionDoomed(st) THEN {EndSession(st)} ELSE {})

\* ----------------------------------------- what must not be left when all is quiet
PubDue(st, x) ==
  LET t == x.op.topic
  IN \/ /\ DueMessage /\ x.ses = st.ses
        /\ \/ Len(st.q[t]) < st.cap
           \/ \E r \in st.ops : r.op.o = "recv" /\ r.ph = "wait" /\ r.ses = st.ses /\ Topic(st, r) = t
     \/ DueTimeout /\ Late(st, x)
     \/ DueCancel /\ Cancelled(st, x)
     \/ DueEnd /\ x.ses # st.ses
RecvDue(st, x) ==
  \/ DueMessage /\ x.ses = st.ses /\ st.q[Topic(st, x)] # <<>>
  \/ DueTimeout /\ Late(st, x)
  \/ DueCancel /\ Cancelled(st, x)
  \/ DueEnd /\ x.ses # st.ses
  \/ DueUnsub /\ ~Sub(st, x.op.s).act

Due(st, x) == \/ x.ph \in {"call", "got", "done"}
              \/ x.ph = "wait" /\ x.op.o = "pub" /\ PubDue(st, x)
              \/ x.ph = "wait" /\ x.op.o = "recv" /\ RecvDue(st, x)

Quiet(st) == /\ ~(DueSession /\ SessionDoomed(st))
             /\ \A x \in st.ops : ~Due(st, x)

\* ------------------------------------------------------------------ shortcuts
\* Steps that lose nothing when they are taken before any other step (opens: may a session
\* be opened before all is quiet?).  Either x is over with the result it is known to return, without any
\* effect and for a reason that will not go away, in a state that cannot be quiet before x is
\* over; or x starts to wait, which leaves it everything it could do before.
Ready(st, x, opens) ==
  IF x.op.o = "pub" THEN
    CASE x.ph = "call" /\ x.want \in {"canceled", "deadline"} -> IF x.want \in CtxErrs(st, x) /\ StrictCtxErr THEN {"over"} ELSE IF st.ses # 0 /\ ~opens THEN {"wait"} ELSE {}
      [] x.ph = "call" /\ x.want = "ErrNotConnected" -> IF opens THEN {} ELSE IF st.ses = 0 THEN {"over"} ELSE {"wait"}
      [] x.ph = "call" /\ x.want \in {"ok", "ErrTimeout", "?"} -> IF st.ses # 0 /\ ~opens THEN {"wait"} ELSE {}
      [] x.ph = "wait" /\ x.want \in {"canceled", "deadline"} -> IF x.want \in CtxErrs(st, x) /\ StrictCtxErr /\ DueCancel THEN {"over"} ELSE {}
      [] x.ph = "wait" /\ x.want = "ErrNotConnected" -> IF x.ses # st.ses /\ DueEnd THEN {"over"} ELSE {}
      [] x.ph = "wait" /\ x.want = "ErrTimeout" -> IF Late(st, x) /\ DueTimeout THEN {"over"} ELSE {}
      [] OTHER -> {}
  ELSE IF x.op.o = "recv" THEN
    CASE x.ph = "call" /\ x.want = "ErrSubscriptionInactive" -> IF ~Active(st, x.op.s) THEN {"over"} ELSE {}
      [] x.ph = "call" -> IF Active(st, x.op.s) THEN {"wait"} ELSE {}
      [] x.ph = "wait" /\ x.want = "ok" ->
           IF \/ DueCancel /\ Cancelled(st, x)
              \/ DueEnd /\ x.ses # st.ses
              \/ DueUnsub /\ ~Sub(st, x.op.s).act
           THEN {"over"} ELSE {}
      [] OTHER -> {}
  ELSE {}

Shortcut(st, opens) ==
  {With(st, x, IF "over" \in Ready(st, x, opens) THEN [x EXCEPT !.ph = "done", !.r = x.want]
               ELSE [x EXCEPT !.ph = "wait", !.ses = st.ses])
   : x \in {y \in st.ops : Ready(st, y, opens) # {}}}

\* points in time before t at which something is due to happen
Moments(st, t) ==
  {d \in (UNION {{Dl(st, x), x.op.cdl} : x \in {y \in st.ops : y.ph = "wait"}}) \cup {st.sdl} :
     d # Forever /\ st.now < d /\ d < t}
=============================================================================
