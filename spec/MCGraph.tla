------------------------------ MODULE MCGraph ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the graph over small pools, and the source of *)
(* the scripts replayed on the real graph.  A script starts with the       *)
(* configuration of the graph.                                             *)
(***************************************************************************)
EXTENDS Graph, Json

CONSTANTS UIDs, Versions, Handles, OpKinds, Kinds, Depths,
          Roots,   \* of subgraphs
          Base     \* UIDs of nodes that are there from the start
VARIABLES st, last, script
vars == <<st, last, script>>

N(u, v) == [u |-> u, ty |-> "t" \o v, ea |-> "e=" \o v, at |-> "n=" \o v, dot |-> u \o v]
E(f, t, v) == [o |-> "link", g |-> "g", f |-> f, t |-> t, id |-> f \o t \o v, a |-> "l=" \o f \o t \o v, w |-> IF v = "1" THEN "1" ELSE "2.5"]

Ops ==
  UNION {
    IF "new" \in OpKinds THEN {[o |-> "new", g |-> "g", h |-> h, n |-> N(u, v)] : h \in Handles, u \in UIDs, v \in Versions} ELSE {},
    IF "new" \in OpKinds THEN {[o |-> "add", g |-> "g", h |-> x.h, ups |-> b] : x \in st.H, b \in BOOLEAN} ELSE {},
    IF "node" \in OpKinds THEN {[o |-> "remove", g |-> "g", u |-> u] : u \in UIDs} ELSE {},
    IF "link" \in OpKinds THEN {E(f, t, v) : f \in UIDs, t \in UIDs, v \in Versions} ELSE {},
    IF "linkonly" \in OpKinds THEN {E(f, t, "1") : f \in UIDs, t \in UIDs} ELSE {},
    IF "unlink" \in OpKinds THEN {[o |-> "unlink", g |-> "g", f |-> f, t |-> t] : f \in UIDs, t \in UIDs} ELSE {},
    IF "sub" \in OpKinds THEN {[o |-> "sub", g |-> "g", u |-> u, d |-> d, as |-> "s"] : u \in Roots, d \in Depths} ELSE {},
    IF "dot" \in OpKinds THEN {[o |-> "dot", g |-> "g"]} ELSE {}
  }
\* what may still happen once a subgraph was taken: one change of either graph
SubOps == UNION {{[o |-> "eset", g |-> g, f |-> f, t |-> t, a |-> "l=set"],
                  [o |-> "unlink", g |-> g, f |-> f, t |-> t]} : g \in DOMAIN st.G, f \in UIDs, t \in UIDs}
          \cup {[o |-> "remove", g |-> g, u |-> u] : g \in DOMAIN st.G, u \in UIDs}

HasSub == "s" \in DOMAIN st.G

Cfgs == {[k |-> k, dot |-> "G"] : k \in Kinds}
Start(cfg) == [GraphInit(cfg) EXCEPT !.G["g"].N = {N(u, "0") : u \in Base}]
\* the nodes of Base are prepared and added by the first operations of the script
Setup(cfg) ==
  LET RECURSIVE F(_)
      F(S) == IF S = {} THEN <<>>
              ELSE LET u == CHOOSE x \in S : TRUE
                   IN <<[o |-> "new", g |-> "g", h |-> "b" \o u, n |-> N(u, "0")],
                        [o |-> "add", g |-> "g", h |-> "b" \o u, ups |-> FALSE]>> \o F(S \ {u})
  IN <<cfg>> \o F(Base)

Init == \E cfg \in Cfgs : st = Start(cfg) /\ last = [op |-> [o |-> "init"]] /\ script = Setup(cfg)

\* edges of a subgraph get UIDs of their own
Fresh(S) == {[f |-> e.f, t |-> e.t, a |-> e.a, w |-> e.w, id |-> "s" \o e.f \o e.t] : e \in S}

Next == \E op \in (IF HasSub THEN SubOps ELSE Ops) :
          /\ HasSub => last.op.o = "sub"
          /\ st' = Effect(st, op, IF op.o = "link" THEN op.id ELSE "",
                          IF op.o = "sub" /\ Has(st.G[op.g], op.u)
                          THEN Fresh(SubEdges(st.G[op.g], Reach(st.G[op.g], {op.u}, op.d))) ELSE {})
          /\ last' = [op |-> op]
          /\ script' = Append(script, op)

View == <<st, HasSub, IF HasSub THEN last.op.o = "sub" ELSE FALSE>>
Emit == PrintT("S " \o ToJson(script'))

\* ------------------------------------------------ the properties on the model
GraphsSane == \A g \in DOMAIN st.G : Sane(st.G[g])

g0 == st.G["g"]
g1 == st'.G["g"]
Present(g) == {n.u : n \in g.N}
Op == last'.op

\* C09
NodesExact == [][
  /\ Op.o = "add" => /\ Present(g1) = Present(g0) \cup {Prepared(st, Op.h).u}
                     /\ (Op.ups \/ ~Has(g0, Prepared(st, Op.h).u)) => Prepared(st, Op.h) \in g1.N
                     /\ g1.E = g0.E
                     /\ \A n \in g0.N : n.u # Prepared(st, Op.h).u => n \in g1.N
  /\ (Op.o = "remove" /\ Op.g = "g") => g1.N = {n \in g0.N : n.u # Op.u}
  /\ Op.o \notin {"add", "remove"} => g1.N = g0.N]_vars
\* C10
EdgesExact == [][
  /\ Op.o = "link" => /\ \A e \in g0.E : e \in g1.E
                      /\ Cardinality(g1.E) <= Cardinality(g0.E) + 1
                      /\ (Has(g0, Op.f) /\ Has(g0, Op.t) /\ Op.f # Op.t) => Cardinality(Between(g1, Op.f, Op.t)) = 1
                      /\ g1.E # g0.E => Between(g0, Op.f, Op.t) = {}
  /\ (Op.o = "unlink" /\ Op.g = "g") => g1.E = {e \in g0.E : ~Joins(g0.k, e, Op.f, Op.t)}
  /\ (Op.o = "remove" /\ Op.g = "g") => g1.E = {e \in g0.E : Op.u \notin {e.f, e.t}}]_vars
ViewsAgree == \A u, v \in Present(g0) :
                /\ (NodeAt(g0, v) \in Neighbours(g0, u)) <=> Between(g0, u, v) # {}
                /\ g0.k = "u" => Between(g0, u, v) = Between(g0, v, u)
\* C11: within d steps, said with paths instead of sets
Paths(g, u, d) == {p \in UNION {[1..k -> Present(g)] : k \in 1..(d + 1)} :
                     p[1] = u /\ \A j \in 1..(Len(p) - 1) : Between(g, p[j], p[j + 1]) # {}}
SubExact == [][(Op.o = "sub" /\ Has(g0, Op.u)) =>
                LET s == st'.G["s"]
                    D == IF Op.d > 3 THEN 3 ELSE Op.d
                IN /\ Present(s) = {p[Len(p)] : p \in Paths(g0, Op.u, D)}
                   /\ \A x, y \in Present(s) :
                        {[a |-> e.a, w |-> e.w] : e \in Between(s, x, y)} = {[a |-> e.a, w |-> e.w] : e \in Between(g0, x, y)}
                   /\ g1 = g0]_vars
Independent == [][HasSub => /\ Op.g = "g" => st'.G["s"] = st.G["s"]
                            /\ Op.g = "s" => g1 = g0]_vars
=============================================================================
