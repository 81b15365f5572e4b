-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Ingesting into and digesting from a broker (pkg/broker/ingester/simple, *)
(* pkg/broker/digester/simple), seen against brokers, subscribers,         *)
(* marshalers and handlers that do exactly what they are told.             *)
(*                                                                         *)
(*   im  marshaler the ingester was created with, "" if none               *)
(*   dh  handler the digester was created with, "" if none                 *)
(*   q   values sent through a real broker and not received yet            *)
(*                                                                         *)
(* Neither the ingester nor the digester has a state of its own: what one  *)
(* call was given has no influence on the next.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

PipeInit(cfg) == [im |-> cfg.im, dh |-> cfg.dh, q |-> <<>>]

\* -------------------------------------------------------------------- ingest
\* What a marshaler makes of data d = [id, js]: "F" fails, "" is plain JSON,
\* which fails for data that has no JSON form (js = "").
Marshaled(m, d) ==
  CASE m = ""  -> IF d.js = "" THEN [err |-> "errJSON", da |-> ""] ELSE [err |-> "ok", da |-> d.js]
    [] m = "F" -> [err |-> "errMarshal", da |-> ""]
    [] m = "N" -> [err |-> "ok", da |-> ""]
    [] OTHER   -> [err |-> "ok", da |-> m \o "(" \o d.id \o ")"]

Chosen(call, made) == IF call # "" THEN call ELSE made

Ingest(st, op, res) ==
  LET y == Marshaled(Chosen(op.m, st.im), op.d)
  IN IF y.err # "ok" THEN res.err = y.err /\ res.pubs = <<>>
     ELSE /\ res.pubs = <<[topic |-> op.topic, ty |-> op.ty, da |-> y.da]>>
          /\ res.err = op.pub
          /\ res.ctx = TRUE     \* publishing is cancelled with the call's context

\* -------------------------------------------------------------------- digest
\* What a digest has done after the first n things its subscriber did:
\*   msg  gave it message m; the handler returned r, after cancelling the context if cx
\*   err  reported an error
\*   nil  returned without a message because the context was cancelled
\* over tells that the digest must return, err with what ("any" if that is open).
RECURSIVE Digested(_, _)
Digested(script, n) ==
  IF n = 0 THEN [over |-> FALSE, err |-> "", n |-> 0, handed |-> <<>>]
  ELSE LET d == Digested(script, n - 1)
           x == script[n]
       IN IF d.over THEN d
          ELSE CASE x.k = "msg" -> [over |-> x.r # "ok" \/ x.cx, err |-> IF x.r # "ok" THEN x.r ELSE "any", n |-> n, handed |-> Append(d.handed, x.m)]
                 [] x.k = "err" -> [over |-> TRUE, err |-> x.r, n |-> n, handed |-> d.handed]
                 [] x.k = "nil" -> [over |-> TRUE, err |-> "any", n |-> n, handed |-> d.handed]

RECURSIVE Payloads(_)
Payloads(ms) == IF ms = <<>> THEN "" ELSE Head(ms).da \o Payloads(Tail(ms))

Digest(st, op, res) ==
  LET d == Digested(op.script, Len(op.script))
      h == Chosen(op.h, st.dh)
  IN /\ d.over
     /\ d.err \in {"any", res.err}
     /\ res.used = d.n                \* asked the subscriber for that much and no more
     /\ res.overlap = FALSE
     /\ IF h = "" THEN res.handed = <<>> /\ res.out = Payloads(d.handed)
        ELSE /\ res.out = ""
             /\ Len(res.handed) = Len(d.handed)
             /\ \A j \in 1..Len(d.handed) : res.handed[j] = [h |-> h, m |-> d.handed[j]]

\* ----------------------------------------------------- through a real broker
\* values are received as they were sent, first in, first out
PipePost(st, op, res) ==
  CASE op.o = "ingest" -> IF Ingest(st, op, res) THEN {st} ELSE {}
    [] op.o = "digest" -> IF Digest(st, op, res) THEN {st} ELSE {}
    [] op.o = "send"   -> IF res.err = "ok" THEN {[st EXCEPT !.q = Append(@, [ty |-> op.ty, v |-> op.v])]} ELSE {}
    [] op.o = "take"   -> IF st.q = <<>> \/ res.err # "ok" THEN {}
                          ELSE IF res.got = <<Head(st.q)>> THEN {[st EXCEPT !.q = Tail(@)]} ELSE {}
    [] OTHER -> {}
=============================================================================
