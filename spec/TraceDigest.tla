---------------------------- MODULE TraceDigest ----------------------------
(***************************************************************************)
(* Is what a digester did with a real subscriber of the in-memory broker   *)
(* what a digest may do?  (Whether the subscriber and the broker behave is *)
(* judged by TraceBroker, from the same trace.)                            *)
(*                                                                         *)
(* A digest is [p, s, ctx, cdl, by, ph, rp, m, seen, r]:                   *)
(*   by    the handler it must use                                         *)
(*   ph    loop   between two receives     recv  receive rp is running     *)
(*         hand   rp's message m is being handled; seen: by handler by     *)
(*         stop   it must return now, with result r ("any": that is open)  *)
(*                                                                         *)
(* dead: subscribers that have been unsubscribed or whose session ended;   *)
(* firm: contexts whose cancellation is complete (cancel is logged before  *)
(* it begins, cancelled after it is complete).                             *)
(* Sessions and subscribers begin and end one at a time in these traces.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json

VARIABLES tid, i, dgs, subs, dead, canc, firm, sctx, sdl, now
tvars == <<tid, i, dgs, subs, dead, canc, firm, sctx, sdl, now>>
rest  == <<subs, dead, canc, firm, sctx, sdl>>

Traces == ndJsonDeserialize(IOEnv.TRACES)
Debug  == "DEBUG" \in DOMAIN IOEnv
Evs == Traces[tid].ev
Ev  == Evs[i + 1]

TInit == /\ tid \in 1..Len(Traces) /\ i = 0 /\ dgs = {} /\ subs = {} /\ dead = {} /\ canc = {} /\ firm = {}
         /\ sctx = "none" /\ sdl = 0 /\ now = 0

Past(cdl, t) == cdl # 0 /\ t >= cdl
\* the context has been cancelled, or may have been
Maybe(d) == d.ctx \in canc \/ Past(d.cdl, Ev.t)
\* the context has certainly been cancelled
Surely(d) == d.ctx \in firm \/ (d.cdl # 0 /\ Ev.t > d.cdl)
\* at a moment when nothing runs
Ended(d) == d.ctx \in canc \/ Past(d.cdl, Ev.t) \/ d.s \in dead

Becomes(d, e) == dgs' = (dgs \ {d}) \cup {e}
Calls(k) == {Evs[j] : j \in {j \in 1..k : Evs[j].e = "call"}}
CallOf(p) == CHOOSE c \in Calls(i) : c.p = p
InDigest(op) == op.o = "recv" /\ "dg" \in DOMAIN op

SessionOver == sctx # "none" /\ (sctx \in canc \/ Past(sdl, Ev.t))

Call ==
  /\ Ev.e = "call"
  /\ UNCHANGED rest
  /\ CASE Ev.op.o = "digest" ->
            dgs' = dgs \cup {[p |-> Ev.p, s |-> Ev.op.s, ctx |-> Ev.op.ctx, cdl |-> Ev.op.cdl, by |-> Ev.op.by,
                              ph |-> "loop", rp |-> 0, m |-> <<>>, seen |-> FALSE, r |-> ""]}
       [] InDigest(Ev.op) ->
            \E d \in dgs : /\ d.p = Ev.op.dg /\ d.ph = "loop"
                           /\ Becomes(d, [d EXCEPT !.ph = "recv", !.rp = Ev.p])
       [] OTHER -> dgs' = dgs

Ret ==
  /\ Ev.e = "ret"
  /\ LET op == CallOf(Ev.p).op
     IN CASE op.o = "digest" ->
               /\ UNCHANGED rest
               /\ \E d \in dgs :
                    /\ d.p = Ev.p
                    /\ \/ d.ph = "stop" /\ d.r \in {"any", Ev.res.err}
                       \/ d.ph = "loop" /\ (Maybe(d) \/ d.s \in dead)
                    /\ dgs' = dgs \ {d}
          [] InDigest(op) ->
               /\ UNCHANGED rest
               /\ \E d \in dgs :
                    /\ d.rp = Ev.p /\ d.ph = "recv"
                    /\ Becomes(d, IF Ev.res.err # "ok" THEN [d EXCEPT !.ph = "stop", !.r = Ev.res.err, !.rp = 0]
                                  ELSE IF Surely(d) THEN [d EXCEPT !.ph = "stop", !.r = "any", !.rp = 0]
                                  ELSE [d EXCEPT !.ph = "loop", !.rp = 0])
          [] op.o = "unsub" -> dead' = dead \cup {op.s} /\ UNCHANGED <<dgs, subs, canc, firm, sctx, sdl>>
          [] op.o = "sub"   -> subs' = subs \cup {op.s} /\ UNCHANGED <<dgs, dead, canc, firm, sctx, sdl>>
          [] op.o = "close" -> dead' = dead \cup subs /\ sctx' = "none" /\ sdl' = 0 /\ UNCHANGED <<dgs, subs, canc, firm>>
          [] op.o = "open"  -> /\ IF sctx = "none" \/ SessionOver THEN sctx' = op.ctx /\ sdl' = op.cdl ELSE UNCHANGED <<sctx, sdl>>
                               /\ dead' = IF SessionOver THEN dead \cup subs ELSE dead
                               /\ UNCHANGED <<dgs, subs, canc, firm>>
          [] OTHER -> UNCHANGED <<dgs>> /\ UNCHANGED rest

Handler ==
  \/ /\ Ev.e = "hs"
     /\ UNCHANGED rest
     /\ IF \E d \in dgs : d.rp = Ev.p
        THEN \E d \in dgs : d.rp = Ev.p /\ d.ph = "recv" /\ Becomes(d, [d EXCEPT !.ph = "hand", !.m = <<Ev.m>>, !.seen = FALSE])
        ELSE dgs' = dgs
  \/ /\ Ev.e = "dh"
     /\ UNCHANGED rest
     /\ \E d \in dgs : /\ d.p = Ev.dg /\ d.ph = "hand" /\ ~d.seen /\ d.m = <<Ev.m>> /\ d.by = Ev.by
                       /\ Becomes(d, [d EXCEPT !.seen = TRUE])
  \/ /\ Ev.e = "he"
     /\ UNCHANGED rest
     /\ IF \E d \in dgs : d.rp = Ev.p
        THEN \E d \in dgs : d.rp = Ev.p /\ d.ph = "hand" /\ d.seen /\ Becomes(d, [d EXCEPT !.ph = "recv"])
        ELSE dgs' = dgs

Other ==
  \/ Ev.e = "cancel" /\ canc' = canc \cup {Ev.c} /\ UNCHANGED <<dgs, subs, dead, firm, sctx, sdl>>
  \/ Ev.e = "cancelled" /\ firm' = firm \cup {Ev.c} /\ UNCHANGED <<dgs, subs, dead, canc, sctx, sdl>>
  \/ /\ Ev.e \in {"quiet", "end"}
     /\ LET now_dead == IF SessionOver THEN dead \cup subs ELSE dead
        IN /\ dead' = now_dead
           /\ \A d \in dgs : \/ d.ph = "hand"
                             \/ d.ph = "recv" /\ ~Ended(d) /\ d.s \notin now_dead
     /\ Ev.e = "end" => dgs = {}
     /\ sctx' = IF SessionOver THEN "none" ELSE sctx
     /\ sdl' = IF SessionOver THEN 0 ELSE sdl
     /\ UNCHANGED <<dgs, subs, canc, firm>>

TNext == i < Len(Evs) /\ i' = i + 1 /\ UNCHANGED tid /\ now' = Ev.t /\ (Call \/ Ret \/ Handler \/ Other)

Report ==
  /\ (i = Len(Evs)) => PrintT("ACC " \o ToString(tid))
  /\ Debug => PrintT("AT " \o ToString(tid) \o " " \o ToString(i) \o " " \o ToString([digests |-> dgs, dead |-> dead, cancelled |-> canc]))
=============================================================================
