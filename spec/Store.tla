------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The in-memory store (pkg/store/memory): entities and links between      *)
(* them.  An entity is a record [u, ty, at] of its UID value, type and     *)
(* attributes; a link is a record [f, t, a] of its ends and attributes.    *)
(* The graph backing the store is directed ("d") or undirected ("u").      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

ToSet(s) == {s[j] : j \in 1..Len(s)}
Lists(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S

Has(st, u) == \E n \in st.N : n.u = u
At(st, u)  == CHOOSE n \in st.N : n.u = u
Joins(k, e, f, t) == (e.f = f /\ e.t = t) \/ (k = "u" /\ e.f = t /\ e.t = f)
Between(st, f, t) == {e \in st.E : Joins(st.k, e, f, t)}

\* -------------------------------------------- single operations: [st, err]
Add(st, n, ups) ==
  IF Has(st, n.u) /\ ~ups THEN [st |-> st, err |-> "ErrAlreadyExists"]
  ELSE [st |-> [st EXCEPT !.N = {x \in @ : x.u # n.u} \cup {n}], err |-> "ok"]
Del(st, u) ==
  [st |-> [st EXCEPT !.N = {x \in @ : x.u # u}, !.E = {e \in @ : e.f # u /\ e.t # u}], err |-> "ok"]
Link(st, f, t, a) ==
  IF ~Has(st, f) \/ ~Has(st, t) THEN [st |-> st, err |-> "ErrEntityNotFound"]
  ELSE IF f = t THEN [st |-> st, err |-> "refused"]
  ELSE IF Between(st, f, t) # {} THEN [st |-> st, err |-> "ok"]
  ELSE [st |-> [st EXCEPT !.E = @ \cup {[f |-> f, t |-> t, a |-> a]}], err |-> "ok"]
Unlink(st, f, t) == [st |-> [st EXCEPT !.E = @ \ Between(st, f, t)], err |-> "ok"]

\* a bulk operation: the single ones in order, up to the first failure
RECURSIVE InOrder(_, _, _)
InOrder(F(_, _), st, s) ==
  IF s = <<>> THEN [st |-> st, err |-> "ok"]
  ELSE LET r == F(st, Head(s))
       IN IF r.err # "ok" THEN r ELSE InOrder(F, r.st, Tail(s))

Do(st, op) ==
  CASE op.o = "add"        -> Add(st, op.n, op.ups)
    [] op.o = "del"        -> Del(st, op.u)
    [] op.o = "link"       -> Link(st, op.f, op.t, op.a)
    [] op.o = "unlink"     -> Unlink(st, op.f, op.t)
    [] op.o = "bulkadd"    -> InOrder(LAMBDA s, n : Add(s, n, op.ups), st, op.ns)
    [] op.o = "bulkdel"    -> InOrder(LAMBDA s, u : Del(s, u), st, op.us)
    [] op.o = "bulklink"   -> InOrder(LAMBDA s, u : Link(s, op.f, u, op.a), st, op.us)
    [] op.o = "bulkunlink" -> InOrder(LAMBDA s, u : Unlink(s, op.f, u), st, op.us)
    [] OTHER -> [st |-> st, err |-> "ok"]

\* ---------------------------------------------------------------- results
ErrOK(err, r) == IF err = "refused" THEN r \notin {"ok", "panic"} ELSE r = err

LookupOK(st, u, r) == IF Has(st, u) THEN r.err = "ok" /\ r.n = At(st, u) ELSE r.err = "ErrEntityNotFound"

\* the graph handle: its lists, and lookups and neighbours of each of us
HandleOK(st, us, r) ==
  /\ r.err = "ok"
  /\ Lists(r.nodes, st.N)
  /\ Len(r.edges) = Cardinality(st.E)
  /\ \A e \in st.E : \E j \in 1..Len(r.edges) :
       r.edges[j].a = e.a /\ Joins(st.k, e, r.edges[j].f, r.edges[j].t)
  /\ \A j \in 1..Len(us) : IF Has(st, us[j]) THEN r.look[j] = <<At(st, us[j])>> ELSE r.look[j] = <<>>
  /\ \A j \in 1..Len(us) : Lists(r.from[j], {n.u : n \in {x \in st.N : Between(st, us[j], x.u) # {}}})

Described(k, r) == [k |-> k, N |-> ToSet(r.nodes), E |-> ToSet(r.edges)]
Sane(st) == /\ \A x, y \in st.N : x.u = y.u => x = y
            /\ \A e \in st.E : Has(st, e.f) /\ Has(st, e.t) /\ e.f # e.t /\ Cardinality(Between(st, e.f, e.t)) = 1

Returns(st, op, res) ==
  CASE op.o = "get" -> LookupOK(st, op.u, res)
    [] op.o = "bulkget" ->
         IF \A j \in 1..Len(op.us) : Has(st, op.us[j])
         THEN res.err = "ok" /\ res.ns = [j \in 1..Len(op.us) |-> At(st, op.us[j])]
         ELSE res.err = "ErrEntityNotFound" /\ res.ns = <<>>
    [] op.o = "handle" -> HandleOK(st, op.us, res)
    \* lists of the handle read one by one while others write
    [] op.o = "hnodes" -> res.err = "ok" /\ Lists(res.nodes, st.N)
    [] op.o = "adopt" -> Sane(Described(st.k, res)) /\ HandleOK(Described(st.k, res), op.us, res)
    [] OTHER -> ErrOK(Do(st, op).err, res.err)

StoreInit(cfg) == [k |-> cfg.k, N |-> {}, E |-> {}]
StorePost(st, op, res) ==
  IF ~Returns(st, op, res) THEN {}
  ELSE IF op.o = "adopt" THEN {Described(st.k, res)} ELSE {Do(st, op).st}
=============================================================================
