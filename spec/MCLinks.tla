------------------------------ MODULE MCLinks ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the link cache over a small pool of UIDs, and *)
(* the source of the scripts replayed on the real cache: one script per    *)
(* transition of the reachable state graph (shortest path + transition).   *)
(***************************************************************************)
EXTENDS Links, TLC, Json, IOUtils

CONSTANTS UIDs, Versions, OpKinds
VARIABLES st, last, script

\* link v between f and t; its id and attributes are determined by v and the ends
L(f, t, v) == [id |-> f \o t \o v, f |-> f, t |-> t, a |-> "v=" \o v]
AllLinks == {L(f, t, v) : f \in UIDs, t \in UIDs, v \in Versions}

PutOps  == {[o |-> "put", l |-> l, ups |-> b] : l \in AllLinks, b \in BOOLEAN}
DelOps  == {[o |-> "del", u |-> u] : u \in UIDs}
GetOps  == {[o |-> k, u |-> u] : k \in {"from", "to"}, u \in UIDs}
Seqs(S) == {<<>>} \cup {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}
BulkOps == {[o |-> k, us |-> us] : k \in {"bulkfrom", "bulkto", "bulkdel"}, us \in Seqs(UIDs)}
           \cup {[o |-> "bulkput", ls |-> <<x, y>>, ups |-> b] : x, y \in AllLinks, b \in BOOLEAN}
Ops == (IF "put" \in OpKinds THEN PutOps ELSE {})
       \cup (IF "del" \in OpKinds THEN DelOps ELSE {})
       \cup (IF "get" \in OpKinds THEN GetOps ELSE {})
       \cup (IF "bulk" \in OpKinds THEN BulkOps ELSE {})
       \cup (IF "clear" \in OpKinds THEN {[o |-> "clear"]} ELSE {})

Init == st = {} /\ last = [op |-> [o |-> "init"], pre |-> {}] /\ script = <<>>
Next == \E op \in Ops :
          /\ st' = Effect(st, op)
          /\ last' = [op |-> op, pre |-> st]
          /\ script' = Append(script, op)

View == st
Emit == PrintT("S " \o ToJson(script'))

\* C17/C18 on the model.  These are stated on the lookups, which are all a user sees.
OnePerPair  == \A x, y \in st : (x.f = y.f /\ x.t = y.t) => x = y
ViewsAgree  == (UNION {LinksFrom(st, u) : u \in UIDs}) = (UNION {LinksTo(st, u) : u \in UIDs})
PutSticks   == [][(last'.op.o = "put") =>
                   \E x \in LinksFrom(st', last'.op.l.f) \cap LinksTo(st', last'.op.l.t) :
                      /\ x \in {last'.op.l} \cup st
                      /\ last'.op.ups => x = last'.op.l
                      /\ \A y \in st : y \in st' \/ (y.f = x.f /\ y.t = x.t)]_<<st, last, script>>
DelExact    == [][(last'.op.o = "del") =>
                   st' = st \ (LinksFrom(st, last'.op.u) \cup LinksTo(st, last'.op.u))]_<<st, last, script>>
BulkIsSeq   == [][(last'.op.o = "bulkput" /\ Len(last'.op.ls) = 2) =>
                   st' = Put(Put(st, last'.op.ls[1], last'.op.ups), last'.op.ls[2], last'.op.ups)]_<<st, last, script>>
=============================================================================
