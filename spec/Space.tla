-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* Attributes (pkg/attrs), entities, resources, objects and links          *)
(* (pkg/space), graph nodes and edges as values (pkg/graph/memory), their  *)
(* constructors, and marshaling (pkg/space/marshal).                       *)
(*                                                                         *)
(*   sets  the attribute sets, each a set of <<key, value>>                *)
(*   h     names of attribute sets: of those made directly, of plain maps, *)
(*         and of the attributes of every value (under the value's name)   *)
(*   bad   attribute sets that fail to be read                             *)
(*   v     the values by name                                              *)
(*   blob  what was marshaled, by name                                     *)
(*   used  UIDs seen so far                                                *)
(*                                                                         *)
(* A value is a record with the fields of all kinds. dot = "?" where the   *)
(* DOT ID is not specified. A marshaled value carries its attributes in at *)
(* and its resource, if any, in r.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> {}]
SpaceInit(cfg) == [sets |-> <<>>, h |-> Empty, bad |-> {}, v |-> Empty, blob |-> Empty, used |-> {}]

Put(f, k, x) == (k :> x) @@ f
Content(st, n) == st.sets[st.h[n]]
Bad(st, n) == st.h[n] \in st.bad
SetVal(c, k, v) == {p \in c : p[1] # k} \cup {<<k, v>>}
Keys(c) == {p[1] : p \in c}
Pairs(s) == {<<s[j][1], s[j][2]>> : j \in 1..Len(s)}

\* name n for a new attribute set with content c
NewSet(st, n, c) == [st EXCEPT !.sets = Append(@, c), !.h = Put(@, n, Len(st.sets) + 1)]
Alias(st, n, m)  == [st EXCEPT !.h = Put(@, n, st.h[m])]

\* ------------------------------------------------------------- constructors
HasDot(v) == v.k # "link" /\ ~v.own
\* the documented DOT ID of a value whose UID is uid when none is given
DefaultDot(st, op, uid) ==
  CASE op.k = "resource" -> op.group \o "/" \o op.version \o "/" \o op.kind
    [] op.k = "object" /\ op.res # "" ->
         LET r == st.v[op.res] IN r.group \o "/" \o r.version \o "/" \o r.kind \o "/" \o op.ns \o "/" \o op.name
    [] op.k = "node" /\ HasDot(st.v[op.res]) -> st.v[op.res].dot
    [] OTHER -> uid

\* fresh is the UID made up if one has to be
Uid(st, op, fresh) ==
  CASE op.k = "node" -> st.v[op.res].uid
    [] op.k = "edge" /\ op.dot # "" -> op.dot
    [] op.uid # "" -> op.uid
    [] OTHER -> fresh

Value(st, op, fresh) ==
  LET uid == Uid(st, op, fresh)
      e == IF op.k = "node" THEN st.v[op.res] ELSE op
  IN [k |-> op.k, own |-> op.own, uid |-> uid, ty |-> e.ty, name |-> e.name, group |-> e.group, version |-> e.version,
      kind |-> e.kind, nsd |-> e.nsd, ns |-> e.ns,
      from |-> IF op.k = "edge" THEN st.v[op.from].uid ELSE op.from, to |-> IF op.k = "edge" THEN st.v[op.to].uid ELSE op.to,
      w |-> IF op.k = "edge" /\ op.w = "" THEN "1" ELSE op.w,
      res |-> op.res, dot |-> IF op.dot # "" THEN op.dot ELSE DefaultDot(st, op, uid)]

\* omitted attributes are empty and private; given ones are the value's own or copied
Make(st, op, fresh) ==
  LET x == Value(st, op, fresh)
      s == [st EXCEPT !.v = Put(@, op.n, x), !.used = @ \cup {x.uid}]
  IN IF op.at = "" THEN {NewSet(s, op.n, {})}
     ELSE {Alias(s, op.n, op.at)} \cup (IF op.own \/ Bad(st, op.at) THEN {} ELSE {NewSet(s, op.n, Content(st, op.at))})
MakesUid(op) == op.k # "node" /\ op.uid = "" /\ ~(op.k = "edge" /\ op.dot # "")

\* ---------------------------------------------------------------- marshaling
Kinds == {"entity", "resource", "object", "link"}
Readable(st, x) == ~Bad(st, x) /\ (st.v[x].k = "object" /\ st.v[x].res # "" => ~Bad(st, st.v[x].res))
RECURSIVE Snap(_, _)
Snap(st, x) == [v |-> st.v[x], at |-> Content(st, x),
                r |-> IF st.v[x].k = "object" /\ st.v[x].res # "" THEN <<Snap(st, st.v[x].res)>> ELSE <<>>]
\* kinds a marshaled value may be unmarshaled as
AsKinds(s) == CASE s.v.k = "node" -> {"entity"} [] s.v.k = "link" -> {"link"} [] OTHER -> {s.v.k, "entity"}

\* the value of kind k under name n that comes out of s; its resource is called n.r
Plain(v, k) == [v EXCEPT !.k = k, !.own = FALSE, !.dot = "?", !.w = "", !.res = "",
                         !.name = IF k = "entity" THEN "" ELSE @, !.group = IF k = "entity" THEN "" ELSE @,
                         !.version = IF k = "entity" THEN "" ELSE @, !.kind = IF k = "entity" THEN "" ELSE @,
                         !.nsd = IF k = "entity" THEN FALSE ELSE @, !.ns = IF k = "entity" THEN "" ELSE @]
Unmarshaled(st, s, k, n) ==
  LET one == NewSet([st EXCEPT !.v = Put(@, n, Plain(s.v, k))], n, s.at)
      rn == n \o ".r"
  IN IF k = "object" /\ s.r # <<>>
     THEN LET two == NewSet([one EXCEPT !.v = Put(@, rn, Plain(s.r[1].v, "resource"))], rn, s.r[1].at)
          IN [two EXCEPT !.v[n].res = rn]
     ELSE one

\* ---------------------------------------------------------------- operations
\* what op may do: the states it may lead to with the result it must return
Outcome(s, e) == [st |-> s, err |-> e]
Ok(s) == Outcome(s, "ok")
Eff(st, op, fresh) ==
  CASE op.o = "new"  -> {Ok(NewSet(st, op.n, {}))}
    [] op.o = "map"  -> {Ok(NewSet(st, op.n, Pairs(op.kv)))}
    [] op.o = "bad"  -> {Ok([NewSet(st, op.n, {<<"!", "!">>}) EXCEPT !.bad = @ \cup {Len(st.sets) + 1}])}
    \* a copy of attributes or of a map, or a map of attributes; of nothing if src = ""
    [] op.o = "copy" -> IF op.src = "" THEN {Ok(NewSet(st, op.n, {}))}
                        ELSE IF Bad(st, op.src) THEN {Outcome(st, "errAttrs")}
                        ELSE {Ok(NewSet(st, op.n, Content(st, op.src)))}
    [] op.o = "set"  -> {Ok(IF Bad(st, op.n) THEN st ELSE [st EXCEPT !.sets[st.h[op.n]] = SetVal(@, op.key, op.val)])}
    [] op.o = "get"  -> {Outcome(st, IF Bad(st, op.n) THEN "errAttrs" ELSE "ok")}
    [] op.o = "mk"   -> {Ok(s) : s \in Make(st, op, fresh)}
    [] op.o = "setdot" -> {Ok([st EXCEPT !.v = [x \in DOMAIN @ |->
                              IF x = op.n THEN [@[x] EXCEPT !.dot = op.dot]
                              ELSE IF @[x].k = "node" /\ @[x].res = op.n THEN [@[x] EXCEPT !.dot = "?"] ELSE @[x]]])}
    [] op.o = "rev"  -> {Ok(Alias([st EXCEPT !.v = Put(@, op.n, [st.v[op.src] EXCEPT !.from = st.v[op.src].to, !.to = st.v[op.src].from])],
                                  op.n, op.src))}
    [] op.o = "fresh" -> {Ok(st)}
    [] op.o = "marshal" -> IF Readable(st, op.x) THEN {Ok([st EXCEPT !.blob = Put(@, op.b, Snap(st, op.x))])}
                           ELSE {Outcome(st, "errAttrs")}
    [] op.o = "unmarshal" -> {Ok(Unmarshaled(st, st.blob[op.b], op.k, op.n))}
    \* through the wire types, without JSON
    [] op.o = "wire" -> IF Readable(st, op.x) THEN {Ok(Unmarshaled(st, Snap(st, op.x), op.k, op.n))} ELSE {Outcome(st, "errAttrs")}
    [] op.o = "garbage" -> {Outcome(st, "fails")}
    [] op.o = "unsup" -> {Outcome(st, "ErrUnsuportedType")}
    [] OTHER -> {}

\* ---------------------------------------------------------- what can be seen
List(s) == [j \in 1..Len(s) |-> <<s[j][1], s[j][2]>>]
SameAttrs(shown, c) == Len(shown) = Cardinality(c) /\ Pairs(shown) = c
\* x: a value as it looks from outside
Looks(st, n, x) ==
  LET v == st.v[n]
  IN /\ x.k = v.k /\ x.uid = v.uid /\ x.ty = v.ty /\ x.name = v.name /\ x.group = v.group /\ x.version = v.version
     /\ x.kind = v.kind /\ x.nsd = v.nsd /\ x.ns = v.ns /\ x.from = v.from /\ x.to = v.to /\ x.w = v.w
     /\ HasDot(v) => v.dot \in {"?", x.dot}
     /\ IF v.k = "object" THEN x.res = (IF v.res = "" THEN "" ELSE st.v[v.res].uid) ELSE x.res = ""
Shows(st, view) ==
  /\ {view.at[j].n : j \in 1..Len(view.at)} = DOMAIN st.h
  /\ \A j \in 1..Len(view.at) :
       LET c == Content(st, view.at[j].n)
       IN SameAttrs(view.at[j].kv, c) /\ (~Bad(st, view.at[j].n) => SameAttrs(view.at[j].da, c))
  /\ {view.vs[j].n : j \in 1..Len(view.vs)} = DOMAIN st.v
  /\ \A j \in 1..Len(view.vs) : Looks(st, view.vs[j].n, view.vs[j])

NewUid(st, u) == u # "" /\ u \notin st.used

SpacePost(st, op, res) ==
  IF op.o = "fresh" THEN
    \* made one after the other or concurrently
    IF /\ res.err = "ok" /\ Len(res.us) = op.count
       /\ \A j \in 1..Len(res.us) : NewUid(st, res.us[j])
       /\ Cardinality({res.us[j] : j \in 1..Len(res.us)}) = Len(res.us)
          /\ res.more = op.more     \* that many different ones
    THEN {[st EXCEPT !.used = @ \cup {res.us[j] : j \in 1..Len(res.us)}]} ELSE {}
  ELSE
  {x.st : x \in {x \in Eff(st, op, res.uid) :
     /\ IF x.err = "fails" THEN res.err \notin {"ok", "panic"} ELSE res.err = x.err
     /\ op.o = "mk" /\ MakesUid(op) => NewUid(st, res.uid)
     /\ op.o = "get" => res.v = (IF ~Bad(st, op.n) /\ op.key \in Keys(Content(st, op.n)) THEN (CHOOSE p \in Content(st, op.n) : p[1] = op.key)[2] ELSE "")
     \* a failed unmarshal leaves its target as it was
     /\ op.o \in {"garbage", "unsup"} => res.same = TRUE
     /\ Shows(x.st, res.view)}}
=============================================================================
