------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The in-memory graph (pkg/graph/memory).                                 *)
(*                                                                         *)
(* A node is a record [u, ty, ea, at, dot]: UID value, type and attributes *)
(* of its entity, its own attributes, its DOT ID.  An edge is a record     *)
(* [f, t, id, a, w] of the UIDs of its ends, its own UID, its attributes   *)
(* and its weight.  A graph is a record [k, dot, N, E]: directed ("d") or  *)
(* undirected ("u"), DOT ID, nodes, edges.  The state is                   *)
(*   G  the graphs by name (the one under test and subgraphs taken of it)  *)
(*   H  nodes prepared with NewNode, by handle, whether or not added       *)
(*                                                                         *)
(* PROP relaxes what is compared to what the property of that name is      *)
(* about; any other value compares everything.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

PROP == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "ALL"

ToSet(s) == {s[j] : j \in 1..Len(s)}

NodeAt(g, u)  == CHOOSE n \in g.N : n.u = u
Has(g, u)     == \E n \in g.N : n.u = u
Joins(k, e, f, t) == (e.f = f /\ e.t = t) \/ (k = "u" /\ e.f = t /\ e.t = f)
Between(g, f, t)  == {e \in g.E : Joins(g.k, e, f, t)}
Neighbours(g, u)  == {n \in g.N : Between(g, u, n.u) # {}}

RECURSIVE Reach(_, _, _)
Reach(g, U, d) == IF d = 0 THEN U
                  ELSE LET V == U \cup {e.t : e \in {e \in g.E : e.f \in U}}
                                  \cup (IF g.k = "u" THEN {e.f : e \in {e \in g.E : e.t \in U}} ELSE {})
                       IN IF V = U THEN U ELSE Reach(g, V, d - 1)

\* ---------------------------------------------------------------- effects
Up(st, g, gr) == [st EXCEPT !.G[g] = gr]

AddNode(gr, n, ups) ==
  IF Has(gr, n.u) THEN (IF ups THEN [gr EXCEPT !.N = {x \in @ : x.u # n.u} \cup {n}] ELSE gr)
  ELSE [gr EXCEPT !.N = @ \cup {n}]
Remove(gr, u) == [gr EXCEPT !.N = {x \in @ : x.u # u}, !.E = {e \in @ : e.f # u /\ e.t # u}]
Link(gr, e) == IF Has(gr, e.f) /\ Has(gr, e.t) /\ e.f # e.t /\ Between(gr, e.f, e.t) = {}
               THEN [gr EXCEPT !.E = @ \cup {e}] ELSE gr
Unlink(gr, f, t) == [gr EXCEPT !.E = @ \ Between(gr, f, t)]
SetAttr(gr, f, t, a) == [gr EXCEPT !.E = {IF Joins(gr.k, e, f, t) THEN [e EXCEPT !.a = a] ELSE e : e \in @}]
\* the subgraph is always directed: an undirected edge is an edge each way.
\* Its edges have UIDs of their own, which are not specified here.
SubEdges(gr, U) ==
  LET inner == {e \in gr.E : e.f \in U /\ e.t \in U}
  IN {[f |-> e.f, t |-> e.t, a |-> e.a, w |-> e.w] : e \in inner}
     \cup (IF gr.k = "u" THEN {[f |-> e.t, t |-> e.f, a |-> e.a, w |-> e.w] : e \in inner} ELSE {})

Prepared(st, h) == (CHOOSE x \in st.H : x.h = h).n

\* the state op leads to; eid is the UID of the edge it creates, sub the edges
\* of the subgraph it creates
Effect(st, op, eid, sub) ==
  CASE op.o = "new"    -> [st EXCEPT !.H = {x \in @ : x.h # op.h} \cup {[h |-> op.h, n |-> op.n]}]
    [] op.o = "add"    -> Up(st, op.g, AddNode(st.G[op.g], Prepared(st, op.h), op.ups))
    [] op.o = "remove" -> Up(st, op.g, Remove(st.G[op.g], op.u))
    [] op.o = "link"   -> Up(st, op.g, Link(st.G[op.g], [f |-> op.f, t |-> op.t, id |-> eid, a |-> op.a, w |-> op.w]))
    [] op.o = "unlink" -> Up(st, op.g, Unlink(st.G[op.g], op.f, op.t))
    [] op.o = "eset"   -> Up(st, op.g, SetAttr(st.G[op.g], op.f, op.t, op.a))
    [] op.o = "setdot" -> LET old == Prepared(st, op.h)
                              new == [old EXCEPT !.dot = op.dot]
                          IN [st EXCEPT !.H = {IF x.h = op.h THEN [x EXCEPT !.n = new] ELSE x : x \in @},
                                        !.G = [g \in DOMAIN @ |->
                                                 [@[g] EXCEPT !.N = {IF x = old THEN new ELSE x : x \in @}]]]
    [] op.o = "sub"    -> IF ~Has(st.G[op.g], op.u) THEN st
                          ELSE LET U == Reach(st.G[op.g], {op.u}, op.d)
                                   s == [k |-> "d", dot |-> "", N |-> {n \in st.G[op.g].N : n.u \in U}, E |-> sub]
                               IN [st EXCEPT !.G = [g \in DOMAIN @ \cup {op.as} |-> IF g = op.as THEN s ELSE @[g]]]
    [] OTHER -> st

\* ---------------------------------------------------------------- results
\* which aspects the property is about
NodesMatter == PROP \notin {"C10"}
EdgesMatter == PROP \notin {"C09"}

NodeOK(n, v) == IF NodesMatter THEN n = v ELSE n.u = v.u
\* v shows edge e of graph gr
EdgeOK(gr, e, v) ==
  /\ EdgesMatter => v.id = e.id /\ v.a = e.a /\ v.w = e.w
  /\ \/ NodeOK(NodeAt(gr, e.f), v.fn) /\ NodeOK(NodeAt(gr, e.t), v.tn)
     \/ gr.k = "u" /\ NodeOK(NodeAt(gr, e.f), v.tn) /\ NodeOK(NodeAt(gr, e.t), v.fn)

ListsNodes(s, N) == /\ Len(s) = Cardinality(N)
                    /\ \A n \in N : \E j \in 1..Len(s) : NodeOK(n, s[j])
ListsEdges(gr, s, E) == /\ Len(s) = Cardinality(E)
                        /\ \A e \in E : \E j \in 1..Len(s) : EdgeOK(gr, e, s[j])
                        /\ \A j \in 1..Len(s) : \E e \in E : EdgeOK(gr, e, s[j])

LookupOK(gr, u, r) == IF Has(gr, u) THEN r.err = "ok" /\ NodeOK(NodeAt(gr, u), r.n)
                      ELSE r.err = "ErrNodeNotFound"
EdgeLookupOK(gr, f, t, r) == IF Between(gr, f, t) = {} THEN r.err \notin {"ok", "panic"}
                             ELSE r.err = "ok" /\ \A e \in Between(gr, f, t) : EdgeOK(gr, e, r.e)
FromOK(gr, u, r) == IF Has(gr, u) THEN r.err = "ok" /\ ListsNodes(r.ns, Neighbours(gr, u))
                    ELSE r.err \in {"ok", "ErrNodeNotFound"} /\ r.ns = <<>>

\* all views at once: listing, lookup and neighbours of each of us, edges, lookup of each pair
ObsOK(gr, us, r) ==
  /\ ListsNodes(r.nodes, gr.N)
  /\ \A j \in 1..Len(us) : LookupOK(gr, us[j], r.look[j])
  /\ \A j \in 1..Len(us) : FromOK(gr, us[j], r.from[j])
  /\ ListsEdges(gr, r.edges, gr.E)
  /\ \A j \in 1..Len(us), k \in 1..Len(us) : EdgeLookupOK(gr, us[j], us[k], r.pair[j][k])

\* the graph an observation describes, if any
Described(k, r) ==
  [k |-> k, dot |-> "", N |-> ToSet(r.nodes),
   E |-> {[f |-> r.edges[j].fn.u, t |-> r.edges[j].tn.u, id |-> r.edges[j].id, a |-> r.edges[j].a,
           w |-> r.edges[j].w] : j \in 1..Len(r.edges)}]
Sane(gr) == /\ \A x, y \in gr.N : x.u = y.u => x = y
            /\ \A e \in gr.E : Has(gr, e.f) /\ Has(gr, e.t) /\ e.f # e.t /\ Cardinality(Between(gr, e.f, e.t)) = 1

\* DOT text: res.nodes lists [dot, at], res.edges lists [f, t, a] by DOT ID
DotOK(gr, r) ==
  LET D(u) == NodeAt(gr, u).dot
  IN /\ r.err = "ok"
     /\ r.directed = (gr.k = "d")
     /\ r.id = gr.dot
     /\ Len(r.nodes) = Cardinality(gr.N)
     /\ ToSet(r.nodes) = {[dot |-> n.dot, at |-> n.at] : n \in gr.N}
     /\ Len(r.edges) = Cardinality(gr.E)
     /\ \A e \in gr.E : \E j \in 1..Len(r.edges) :
          /\ r.edges[j].a = e.a
          /\ \/ r.edges[j].f = D(e.f) /\ r.edges[j].t = D(e.t)
             \/ gr.k = "u" /\ r.edges[j].f = D(e.t) /\ r.edges[j].t = D(e.f)

Returns(st, op, res) ==
  LET gr == st.G[op.g]
  IN CASE op.o = "new" -> res.err = "ok" /\ NodeOK(op.n, res.n)
       [] op.o = "add" -> IF Has(gr, Prepared(st, op.h).u) /\ ~op.ups THEN res.err = "ErrDuplicateNode"
                          ELSE res.err = "ok"
       [] op.o = "addbad" -> res.err = "ErrInvalidNode"
       [] op.o \in {"remove", "unlink", "setdot"} -> res.err = "ok"
       [] op.o = "node" -> LookupOK(gr, op.u, res)
       [] op.o = "nodes" -> res.err = "ok" /\ ListsNodes(res.ns, gr.N)
       [] op.o = "edge" -> EdgeLookupOK(gr, op.f, op.t, res)
       [] op.o = "edges" -> res.err = "ok" /\ ListsEdges(gr, res.es, gr.E)
       [] op.o = "from" -> FromOK(gr, op.u, res)
       [] op.o = "eset" -> res.err = (IF Between(gr, op.f, op.t) = {} THEN "none" ELSE "ok")
       [] op.o = "link" ->
            IF ~Has(gr, op.f) \/ ~Has(gr, op.t) THEN res.err = "ErrNodeNotFound"
            ELSE IF op.f = op.t THEN res.err \notin {"ok", "panic"}
            ELSE LET E == Between(gr, op.f, op.t)
                 IN /\ res.err = "ok"
                    /\ E # {} => \A e \in E : EdgeOK(gr, e, res.e)
                    \* a new edge: the UID asked for, else a fresh one
                    /\ E = {} => /\ EdgeOK(gr, [f |-> op.f, t |-> op.t, id |-> res.e.id, a |-> op.a, w |-> op.w], res.e)
                                 /\ EdgesMatter => IF op.id # "" THEN res.e.id = op.id
                                                   ELSE \A e \in gr.E : e.id # res.e.id
       [] op.o = "sub" ->
            IF ~Has(gr, op.u) THEN res.err = "ErrNodeNotFound"
            ELSE /\ res.err = "ok"
                 /\ LET U == Reach(gr, {op.u}, op.d)
                        s == Described("d", res)
                    IN /\ Len(res.nodes) = Cardinality(U)
                       /\ Len(res.edges) = Cardinality(s.E)
                       /\ s.N = {n \in gr.N : n.u \in U}
                       /\ {[f |-> e.f, t |-> e.t, a |-> e.a, w |-> e.w] : e \in s.E} = SubEdges(gr, U)
                       /\ Sane(s)
       [] op.o = "obs" -> ObsOK(gr, op.us, res)
       [] op.o = "dot" -> DotOK(gr, res)
       \* the views after operations that were not recorded
       [] op.o = "adopt" -> LET s == Described(gr.k, res)
                            IN Sane(s) /\ ObsOK(s, op.us, res)
       [] OTHER -> FALSE

GraphInit(cfg) == [G |-> [g \in {"g"} |-> [k |-> cfg.k, dot |-> cfg.dot, N |-> {}, E |-> {}]], H |-> {}]

GraphPost(st, op, res) ==
  IF ~Returns(st, op, res) THEN {}
  ELSE IF op.o = "adopt" THEN {Up(st, op.g, Described(st.G[op.g].k, res))}
  ELSE {Effect(st, op,
               IF op.o = "link" /\ res.err = "ok" THEN res.e.id ELSE "",
               IF op.o = "sub" /\ res.err = "ok" THEN Described("d", res).E ELSE {})}
=============================================================================
