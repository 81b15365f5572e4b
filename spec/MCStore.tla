------------------------------ MODULE MCStore ------------------------------
EXTENDS Store, Json

CONSTANTS UIDs, Versions, OpKinds, Kinds, BulkMax
VARIABLES st, last, script
vars == <<st, last, script>>

N(u, v) == [u |-> u, ty |-> "t" \o v, at |-> "n=" \o v]
Ns == {N(u, v) : u \in UIDs, v \in Versions}
Seqs(S) == UNION {[1..k -> S] : k \in 0..BulkMax}

Ops == UNION {
  IF "single" \in OpKinds THEN
       {[o |-> "add", n |-> n, ups |-> b] : n \in Ns, b \in BOOLEAN}
       \cup {[o |-> o, u |-> u] : o \in {"get", "del"}, u \in UIDs}
       \cup {[o |-> "link", f |-> f, t |-> t, a |-> "l=" \o f \o t] : f \in UIDs, t \in UIDs}
       \cup {[o |-> "unlink", f |-> f, t |-> t] : f \in UIDs, t \in UIDs}
  ELSE {},
  IF "bulk" \in OpKinds THEN
       {[o |-> "bulkadd", ns |-> ns, ups |-> b] : ns \in Seqs(Ns), b \in BOOLEAN}
       \cup {[o |-> o, us |-> us] : o \in {"bulkget", "bulkdel"}, us \in Seqs(UIDs)}
       \cup {[o |-> "bulklink", f |-> f, us |-> us, a |-> "l=" \o f] : f \in UIDs, us \in Seqs(UIDs)}
       \cup {[o |-> "bulkunlink", f |-> f, us |-> us] : f \in UIDs, us \in Seqs(UIDs)}
  ELSE {}}

Init == /\ \E k \in Kinds : st = StoreInit([k |-> k]) /\ script = <<[k |-> k]>>
        /\ last = [op |-> [o |-> "init"]]
Next == \E op \in Ops : /\ st' = Do(st, op).st
                        /\ last' = [op |-> op]
                        /\ script' = Append(script, op)
View == st
Emit == PrintT("S " \o ToJson(script'))

StoreSane == Sane(st)
Op == last'.op
Uids(s) == {n.u : n \in s.N}
\* C14
AddExact == [][Op.o = "add" =>
  /\ Uids(st') = Uids(st) \cup {Op.n.u}
  /\ (Op.ups \/ ~Has(st, Op.n.u)) => Op.n \in st'.N
  /\ (~Op.ups /\ Has(st, Op.n.u)) => st' = st
  /\ st'.E = st.E]_vars
DelExact == [][Op.o = "del" => /\ st'.N = {n \in st.N : n.u # Op.u}
                               /\ st'.E = {e \in st.E : Op.u \notin {e.f, e.t}}]_vars
LinkExact == [][/\ Op.o \in {"link", "unlink"} => st'.N = st.N
                /\ Op.o = "link" => /\ st.E \subseteq st'.E
                                    /\ \A e \in st'.E \ st.E : e = [f |-> Op.f, t |-> Op.t, a |-> Op.a]
                /\ Op.o = "unlink" => st'.E = {e \in st.E : ~Joins(st.k, e, Op.f, Op.t)}]_vars
\* C15, by splitting a bulk operation in two
Halves == [][/\ (Op.o = "bulkadd" /\ Len(Op.ns) = 2) =>
                  LET r == Add(st, Op.ns[1], Op.ups)
                  IN st' = (IF r.err = "ok" THEN Add(r.st, Op.ns[2], Op.ups).st ELSE r.st)
             /\ (Op.o = "bulklink" /\ Len(Op.us) = 2) =>
                  LET r == Link(st, Op.f, Op.us[1], Op.a)
                  IN st' = (IF r.err = "ok" THEN Link(r.st, Op.f, Op.us[2], Op.a).st ELSE r.st)
             /\ (Op.o = "bulkdel" /\ Len(Op.us) = 2) => st' = Del(Del(st, Op.us[1]).st, Op.us[2]).st]_vars
=============================================================================
