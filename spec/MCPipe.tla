------------------------------- MODULE MCPipe -------------------------------
(***************************************************************************)
(* All short sequences of ingest or digest calls and the results Pipe      *)
(* allows for them; prints the calls as scripts.                           *)
(***************************************************************************)
EXTENDS Pipe, TLC, Json, IOUtils

CONSTANTS Mode, MaxOps, MaxScript
VARIABLES st, last, script
vars == <<st, last, script>>

Datas == {[id |-> "d1", js |-> "\"d1\""], [id |-> "bad", js |-> ""]}
Ingests == {[o |-> "ingest", m |-> m, topic |-> t, ty |-> ty, d |-> d, pub |-> p] :
              m \in {"", "A", "B", "F"}, t \in {"T", "U"}, ty \in {0, 3}, d \in Datas, p \in {"ok", "errPub", "ErrTimeout"}}

Msg(n) == [id |-> "m" \o ToString(n), ty |-> n, da |-> "0" \o ToString(n), at |-> "k=" \o ToString(n)]
Item(n) == {[k |-> "msg", m |-> Msg(n), r |-> r, cx |-> cx] : r \in {"ok", "errHandler"}, cx \in BOOLEAN}
           \cup {[k |-> "err", m |-> Msg(0), r |-> r, cx |-> FALSE] : r \in {"errSub", "ErrTimeout", "ErrSubscriptionInactive"}}
           \cup {[k |-> "nil", m |-> Msg(0), r |-> "", cx |-> TRUE]}
RECURSIVE Scripts(_)
Scripts(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Scripts(n - 1), x \in Item(n)}
\* what follows the end of a digest shows that it does not ask for it
Stops(s) == Len(s) > 0 /\ Digested(s, Len(s)).over
Digests == {[o |-> "digest", h |-> h, script |-> s] : h \in {"", "H1", "H2"}, s \in {s \in UNION {Scripts(k) : k \in 1..MaxScript} : Stops(s)}}

Ops == IF Mode = "ingest" THEN Ingests ELSE Digests

\* results allowed, among all that could be returned
IngestResults(op) ==
  {[err |-> e, pubs |-> p, ctx |-> TRUE] : e \in {"ok", "errPub", "ErrTimeout", "errJSON", "errMarshal"},
     p \in {<<>>} \cup {<<[topic |-> op.topic, ty |-> op.ty, da |-> d]>> : d \in {"A(d1)", "B(d1)", "A(bad)", "B(bad)", "\"d1\""}}}

Init == /\ \E m \in {"", "A", "F"}, h \in {"", "H1"} :
              /\ (Mode = "ingest" => h = "") /\ (Mode = "digest" => m = "")
              /\ st = PipeInit([im |-> m, dh |-> h]) /\ script = <<[im |-> m, dh |-> h]>>
        /\ last = [op |-> "none"]
Next == \E op \in Ops :
          /\ Len(script) <= MaxOps
          /\ st' = st
          /\ last' = [op |-> op]
          /\ script' = Append(script, op)
\* which marshaler or handler the previous calls were given could matter to wrong code
View == <<st, Len(script), [k \in 2..Len(script) |-> IF Mode = "ingest" THEN script[k].m ELSE script[k].h]>>
Emit == PrintT("S " \o ToJson(script'))

\* exactly one result of an ingest is allowed
Determined == [][Mode = "ingest" => Cardinality({r \in IngestResults(last'.op) : Ingest(st, last'.op, r)}) = 1]_vars
\* nothing is handed over after the end, everything before it is
NoMore == [][Mode = "digest" =>
               LET s == last'.op.script
                   d == Digested(s, Len(s))
               IN /\ \A j \in 1..(d.n - 1) : s[j].k = "msg" /\ s[j].r = "ok" /\ ~s[j].cx
                  /\ d.handed = [j \in 1..Len(d.handed) |-> s[j].m]
                  /\ Len(d.handed) \in {d.n - 1, d.n}]_vars
=============================================================================
