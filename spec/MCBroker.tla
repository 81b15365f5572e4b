------------------------------ MODULE MCBroker ------------------------------
(***************************************************************************)
(* Explores Broker: an environment makes calls, cancels contexts, lets     *)
(* time pass and ends handlers.  It does so when nothing more can happen   *)
(* inside the broker or, with Burst, also before that.                     *)
(* Prints every environment step with the ones that led to it: the scripts *)
(* replayed on the real broker.                                            *)
(***************************************************************************)
EXTENDS Broker, Json

CONSTANTS Caps, TopicList, Profile, MaxSteps, MaxSubs, MaxMsgs, MaxCalls, Burst, Opened, Ghosts

VARIABLES st, till, n, nm, np, nsub, acc, given, lost, script
vars == <<st, till, n, nm, np, nsub, acc, given, lost, script>>

\* what the environment may do
P(t, to, c) == [o |-> "pub", topic |-> t, to |-> to, ctx |-> c]
R(to, c, h) == [o |-> "recv", to |-> to, ctx |-> c, h |-> h]
S(t) == [o |-> "sub", topic |-> t]
D(d, by, c, h) == [o |-> "digest", d |-> d, by |-> by, ctx |-> c, h |-> h]
Adv(k) == [o |-> "adv", ms |-> k]
O(c) == [o |-> "open", ctx |-> c]
Unsub == [o |-> "unsub"]
Close == [o |-> "close"]
Cancel(c) == [o |-> "cancel", c |-> c]
Release == [o |-> "release"]
Acts ==
  CASE Profile = "messages"  -> {P("T", 0, ""), P("U", 0, ""), R(0, "", ""), S("T"), S("U")}
    [] Profile = "order"     -> {P("T", 0, ""), R(0, "", ""), S("T"), R(0, "c2", ""), Cancel("c2")}
    [] Profile = "capacity"  -> {P("T", 0, ""), P("T", 20, ""), R(0, "", ""), R(20, "", ""), S("T"), Adv(20), Adv(5000)}
    [] Profile = "cancelled" -> {P("T", 0, ""), P("T", 0, "c2"), R(0, "", ""), R(0, "c2", ""), S("T"), Cancel("c2"), Adv(5000)}
    [] Profile = "sessions"  -> {O("c1"), O("c2"), Close, Cancel("c1"), Cancel("c2"), S("T"), P("T", 0, ""), R(0, "", "")}
    [] Profile = "unsub"     -> {S("T"), Unsub, R(0, "", ""), P("T", 0, "")}
    [] Profile = "unsubend"  -> {S("T"), Unsub, R(0, "", ""), Close, O("c2")}
    [] Profile = "isolation" -> {S("T"), P("T", 0, "c2"), P("T", 0, "c3"), R(0, "c2", ""), R(0, "c3", "block"), Cancel("c2"), Cancel("c3"), Release}
    [] Profile = "digest"    -> {S("T"), P("T", 0, ""), D("d1", "", "c2", ""), D("d0", "H2", "c2", "block"), D("d1", "H2", "", "err"), Unsub, Cancel("c2"), Cancel("c1"), Close, Adv(5000), Release}
    [] Profile = "all"       -> {S("T"), Unsub, P("T", 0, "c2"), P("T", 20, ""), R(20, "c2", ""), R(0, "", "block"), Cancel("c2"), Release, Adv(20), Close, O("c3"), Cancel("c1"), Cancel("c3")}

OneTopic == <<"T">>
TwoTopics == <<"T", "U">>
Topics == {TopicList[j] : j \in 1..Len(TopicList)}
Call(p, op, s) == [p |-> p, op |-> op, t0 |-> s.now, ph |-> "call", ses |-> 0, m |-> <<>>, r |-> "", want |-> "?", get |-> "?", c |-> n]
OpenOp == [o |-> "open", ctx |-> "c1", cdl |-> 0]
OpenStep == [o |-> "open", ctx |-> "c1"]

Init ==
  /\ \E c \in Caps : LET b == BInit([cap |-> c, pto |-> 0, topics |-> TopicList])
                     IN /\ st = IF Opened THEN [b EXCEPT !.ses = 1, !.nses = 1, !.sctx = "c1"] ELSE b
                        /\ script = <<[cap |-> c, pto |-> 0, topics |-> TopicList]>> \o (IF Opened THEN <<OpenStep>> ELSE <<>>)
  /\ till = 0 /\ n = 0 /\ nm = 0 /\ np = 0 /\ nsub = 0
  /\ acc = {} /\ given = {} /\ lost = 0

\* ------------------------------------------------- steps the broker makes itself
Ended(s) == {x \in s.ops : x.ph \in {"done", "got"}}
\* calls return and handlers run at once; a digest receives again unless its
\* context is cancelled or something failed
Again(x) == IF /\ "dg" \in DOMAIN x.op
               /\ IF x.ph = "done" THEN x.r = "ok" ELSE x.op.h # "err"
               /\ ~Cancelled(st, x)
            THEN {[x EXCEPT !.ph = "call", !.t0 = st.now, !.m = <<>>, !.r = "", !.ses = 0]}
            ELSE {}
Finish ==
  LET x == CHOOSE x \in Ended(st) : \A y \in Ended(st) : x.p <= y.p
      k == n + 1
  IN /\ st' = [st EXCEPT !.ops = (@ \ {x}) \cup (IF x.ph = "got" /\ x.op.h = "block" THEN {[x EXCEPT !.ph = "handling"]} ELSE Again(x))]
     /\ given' = IF Ghosts /\ x.ph = "got" THEN given \cup {[id |-> x.m[1].id, t |-> Topic(st, x), ses |-> x.ses, sses |-> Sub(st, x.op.s).ses, c |-> x.c, h |-> k]} ELSE given
     /\ acc' = IF Ghosts /\ x.op.o = "pub" /\ x.r = "ok" THEN acc \cup {[id |-> x.op.m.id, t |-> x.op.topic, ses |-> x.ses, c |-> x.c, r |-> k]} ELSE acc
     /\ n' = IF Ghosts THEN k ELSE n
     /\ UNCHANGED <<till, nm, np, nsub, lost, script>>

\* messages that a receive that timed out discarded
Total(s) == [t \in Topics |-> Len(s.q[t])]
Inner ==
  /\ Ended(st) = {}
  /\ st' \in Step(st)
  /\ lost' = IF Ghosts /\ \E x \in st.ops, y \in st'.ops : x.p = y.p /\ x.ph = "wait" /\ y.ph = "done" /\ y.r = "ErrTimeout" /\ y.op.o = "recv"
             THEN lost + 1 ELSE lost
  /\ UNCHANGED <<till, n, nm, np, nsub, acc, given, script>>

Settled == Ended(st) = {} /\ Step(st) = {}

Advance ==
  /\ Settled /\ st.now < till
  /\ st' = [st EXCEPT !.now = Min({till} \cup Moments(st, till))]
  /\ UNCHANGED <<till, n, nm, np, nsub, acc, given, lost, script>>

\* ----------------------------------------------------------- environment steps
Handlers == {x \in st.ops : x.ph = "handling"}
Env(a) ==
  /\ Len(script) - 1 < MaxSteps
  /\ Ended(st) = {} /\ st.now = till
  /\ \/ Settled
     \/ Burst
  /\ n' = IF Ghosts THEN n + 1 ELSE n
  /\ UNCHANGED <<acc, given, lost>>
  /\ CASE a.o = "adv" ->
            /\ Settled /\ st.ops # {} /\ till' = till + a.ms /\ st' = st
            /\ script' = Append(script, a) /\ UNCHANGED <<nm, np, nsub>>
       [] a.o = "cancel" ->
            /\ a.c \notin st.canc /\ (a.c = st.sctx \/ Profile = "cancelled" \/ \E x \in st.ops : "ctx" \in DOMAIN x.op /\ x.op.ctx = a.c)
            /\ st' = [st EXCEPT !.canc = @ \cup {a.c}]
            /\ script' = Append(script, a) /\ UNCHANGED <<till, nm, np, nsub>>
       [] a.o = "release" ->
            /\ Handlers # {} /\ st' = [st EXCEPT !.ops = (@ \ Handlers) \cup UNION {Again(x) : x \in Handlers}]
            /\ script' = Append(script, a) /\ UNCHANGED <<till, nm, np, nsub>>
       [] OTHER ->
            /\ Cardinality(st.ops) < MaxCalls
            /\ np' = np + 1 /\ UNCHANGED till
            /\ CASE a.o \in {"open", "close"} ->
                      /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, IF a.o = "open" THEN [o |-> "open", ctx |-> a.ctx, cdl |-> 0] ELSE [o |-> "close"], st)}]
                      /\ script' = Append(script, a) /\ UNCHANGED <<nm, nsub>>
                 [] a.o = "sub" ->
                      /\ nsub < MaxSubs /\ nsub' = nsub + 1
                      /\ LET s == "s" \o ToString(nsub + 1) IN
                           /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, [o |-> "sub", topic |-> a.topic, s |-> s], st)}]
                           /\ script' = Append(script, [o |-> "sub", topic |-> a.topic, s |-> s])
                      /\ UNCHANGED nm
                 [] a.o = "unsub" ->
                      \E s \in {u.s : u \in st.subs} :
                        /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, [o |-> "unsub", s |-> s], st)}]
                        /\ script' = Append(script, [o |-> "unsub", s |-> s])
                        /\ UNCHANGED <<nm, nsub>>
                 [] a.o = "digest" ->
                      \E s \in {u.s : u \in st.subs} :
                        /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, [o |-> "recv", s |-> s, to |-> 0, ctx |-> a.ctx, cdl |-> 0, h |-> a.h, dg |-> 1], st)}]
                        /\ script' = Append(script, [o |-> "digest", s |-> s, d |-> a.d, by |-> a.by, ctx |-> a.ctx, h |-> a.h])
                        /\ UNCHANGED <<nm, nsub>>
                 [] a.o = "recv" ->
                      \E s \in {u.s : u \in st.subs} :
                        /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, [o |-> "recv", s |-> s, to |-> a.to, ctx |-> a.ctx, cdl |-> 0, h |-> a.h], st)}]
                        /\ script' = Append(script, [o |-> "recv", s |-> s, to |-> a.to, ctx |-> a.ctx, h |-> a.h])
                        /\ UNCHANGED <<nm, nsub>>
                 [] a.o = "pub" ->
                      /\ nm < MaxMsgs /\ nm' = nm + 1
                      /\ LET m == [id |-> "m" \o ToString(nm + 1), ty |-> nm % 5, da |-> "d" \o ToString(nm + 1), at |-> ""] IN
                           /\ st' = [st EXCEPT !.ops = @ \cup {Call(np + 1, [o |-> "pub", topic |-> a.topic, to |-> a.to, ctx |-> a.ctx, cdl |-> 0, m |-> m], st)}]
                           /\ script' = Append(script, [o |-> "pub", topic |-> a.topic, to |-> a.to, ctx |-> a.ctx, m |-> m])
                      /\ UNCHANGED nsub
  /\ Ghosts \/ PrintT("S " \o ToJson(script'))

Next == IF Ended(st) # {} THEN Finish ELSE Inner \/ Advance \/ \E a \in Acts : Env(a)

View == IF Ghosts THEN <<st, till, n, nm, np, nsub, acc, given, lost>> ELSE <<st, till, nm, nsub, Len(script)>>

\* ------------------------------------------------------------------- invariants
\* what is due can happen: when no step is left, nothing demanded is outstanding
Consistent == Settled => Quiet(st)
Room == \A t \in Topics : Len(st.q[t]) <= st.cap
Outside == st.ses = 0 => (\A t \in Topics : st.q[t] = <<>>) /\ st.sctx = ""
\* C01
Once == \A g, h \in given : g.id = h.id => g = h
InFlight == {[id |-> x.op.m.id, t |-> x.op.topic, ses |-> x.ses] : x \in {y \in st.ops : y.op.o = "pub"}}
Faithful == \A g \in given : \/ \E a \in acc : a.id = g.id /\ a.t = g.t /\ a.ses = g.ses /\ g.ses = g.sses
                             \/ \E a \in InFlight : a.id = g.id /\ a.t = g.t /\ a.ses = g.ses
\* C08: a digest does not go on once it must end
Digesting == Settled =>
  \A x \in {y \in st.ops : "dg" \in DOMAIN y.op} :
     x.ph = "handling" \/ (st.ses # 0 /\ Active(st, x.op.s) /\ ~Cancelled(st, x))
\* C02
InOrder == \A g, h \in given, a, b \in acc :
              (a.id = g.id /\ b.id = h.id /\ a.t = b.t /\ a.r <= b.c) => ~(h.h <= g.c)
\* C03
Kept == LET open == {a \in acc : a.ses = st.ses /\ st.ses # 0}
            gone == {a \in open : /\ ~\E g \in given : g.id = a.id
                                  /\ ~\E j \in 1..Len(st.q[a.t]) : st.q[a.t][j].m.id = a.id
                                  /\ ~\E x \in st.ops : x.op.o = "recv" /\ x.m # <<>> /\ x.m[1].id = a.id}
        IN Cardinality(gone) <= lost
=============================================================================
