-------------------------------- MODULE Plan --------------------------------
(***************************************************************************)
(* The plan (pkg/plan/simple): resources by UID value.  A resource is a    *)
(* record [u, g, v, k, n] of its UID value, group, version, kind and a      *)
(* name that tells resources apart that are the same in all of these.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

ToSet(s) == {s[k] : k \in 1..Len(s)}
Lists(s, S) == Len(s) = Cardinality(S) /\ ToSet(s) = S

Add(S, r) == {x \in S : x.u # r.u} \cup {r}
Del(S, u) == {x \in S : x.u # u}
At(S, u)  == {x \in S : x.u = u}

Effect(S, op) ==
  CASE op.o = "add" -> Add(S, op.r)
    [] op.o = "del" -> Del(S, op.u)
    [] OTHER        -> S

Returns(S, op, res) ==
  CASE op.o \in {"add", "del"} -> res.err = "ok"
    [] op.o = "get" -> IF At(S, op.u) = {} THEN res.err = "ErrResourceNotFound" /\ res.r = <<>>
                       ELSE res.err = "ok" /\ Lists(res.r, At(S, op.u))
    [] op.o = "getall" -> res.err = "ok" /\ Lists(res.rs, S)
    \* listing and every lookup, after operations that were not recorded
    [] op.o = "adopt" -> /\ res.err = "ok"
                         /\ Lists(res.rs, ToSet(res.rs))
                         /\ \A x, y \in ToSet(res.rs) : x.u = y.u => x = y
                         /\ \A j \in 1..Len(op.us) : Lists(res.gets[j], At(ToSet(res.rs), op.us[j]))
    [] op.o = "held" -> res.same = TRUE
    [] OTHER -> FALSE

PlanInit(cfg) == {}
PlanPost(S, op, res) ==
  IF Returns(S, op, res) THEN {IF op.o = "adopt" THEN ToSet(res.rs) ELSE Effect(S, op)} ELSE {}
=============================================================================
