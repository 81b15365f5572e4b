------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* The link cache (pkg/cache/memory): a set of links, at most one per      *)
(* ordered pair of ends.  A link is a record [id, f, t, a] of its UID, its *)
(* ends (UID values) and its attributes.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

ToSet(s) == {s[k] : k \in 1..Len(s)}
\* sequence s lists each element of set S exactly once
Lists(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S

RECURSIVE FoldOps(_, _, _, _)
FoldOps(F(_, _), st, s, k) == IF k > Len(s) THEN st ELSE FoldOps(F, F(st, s[k]), s, k + 1)

LinksFrom(S, u) == {l \in S : l.f = u}
LinksTo(S, u)   == {l \in S : l.t = u}

Put(S, l, ups) ==
  LET same == {x \in S : x.f = l.f /\ x.t = l.t}
  IN IF same = {} THEN S \cup {l}
     ELSE IF ups THEN (S \ same) \cup {l} ELSE S

Del(S, u) == {l \in S : l.f # u /\ l.t # u}

\* the state an operation leads to
Effect(S, op) ==
  CASE op.o = "put"     -> Put(S, op.l, op.ups)
    [] op.o = "bulkput" -> FoldOps(LAMBDA s, l : Put(s, l, op.ups), S, op.ls, 1)
    [] op.o = "del"     -> Del(S, op.u)
    [] op.o = "bulkdel" -> FoldOps(Del, S, op.us, 1)
    [] op.o = "clear"   -> {}
    [] OTHER            -> S

Adopted(res) == UNION {ToSet(res.from[k]) : k \in 1..Len(res.from)}

\* the results an operation may return
Returns(S, op, res) ==
  CASE op.o \in {"put", "bulkput", "del", "bulkdel", "clear"} -> res.err = "ok"
    [] op.o = "from" -> res.err = "ok" /\ Lists(res.ls, LinksFrom(S, op.u))
    [] op.o = "to"   -> res.err = "ok" /\ Lists(res.ls, LinksTo(S, op.u))
    \* one entry per requested UID, in the order of the request
    [] op.o = "bulkfrom" -> /\ res.err = "ok" /\ res.extra = 0 /\ Len(res.m) = Len(op.us)
                            /\ \A k \in 1..Len(op.us) : Lists(res.m[k], LinksFrom(S, op.us[k]))
    [] op.o = "bulkto"   -> /\ res.err = "ok" /\ res.extra = 0 /\ Len(res.m) = Len(op.us)
                            /\ \A k \in 1..Len(op.us) : Lists(res.m[k], LinksTo(S, op.us[k]))
    \* the whole cache as seen through both lookups of every UID
    [] op.o = "all" -> /\ \A k \in 1..Len(op.us) : Lists(res.from[k], LinksFrom(S, op.us[k]))
                       /\ \A k \in 1..Len(op.us) : Lists(res.to[k], LinksTo(S, op.us[k]))
    \* ... when it is not known which operations ran before: both lookups still agree
    [] op.o = "adopt" -> LET A == Adopted(res)
                         IN /\ \A k \in 1..Len(op.us) : Lists(res.from[k], LinksFrom(A, op.us[k]))
                            /\ \A k \in 1..Len(op.us) : Lists(res.to[k], LinksTo(A, op.us[k]))
                            /\ \A x, y \in A : (x.f = y.f /\ x.t = y.t) => x = y
    \* an earlier lookup result looked at again
    [] op.o = "held" -> res.same = TRUE
    [] OTHER -> FALSE

LinksInit(cfg) == {}
LinksPost(S, op, res) == IF Returns(S, op, res) THEN {IF op.o = "adopt" THEN Adopted(res) ELSE Effect(S, op)} ELSE {}
=============================================================================
