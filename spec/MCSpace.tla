------------------------------ MODULE MCSpace ------------------------------
(***************************************************************************)
(* All short histories of Space and its properties as invariants and       *)
(* action properties; prints the histories as scripts. Profile:            *)
(*   attrs    attribute sets, maps and copies of them                      *)
(*   make     every constructor with every subset of its options           *)
(*   marshal  marshaling, unmarshaling, chains of both, failures           *)
(***************************************************************************)
EXTENDS Space, Json

CONSTANTS Profile, MaxOps
VARIABLES st, last, script
vars == <<st, last, script>>

N == Len(script)
F(n) == ToString(n)
ValNames == DOMAIN st.v
Of(k) == {x \in ValNames : st.v[x].k \in k}
AttrNames == DOMAIN st.h
Only(x, k, fs) == x.k \in k

Base(k, n) ==
  [o |-> "mk", n |-> "x" \o F(n), k |-> k, own |-> FALSE, uid |-> "", at |-> "", dot |-> "", res |-> "", ty |-> "", name |-> "",
   group |-> "", version |-> "", kind |-> "", nsd |-> FALSE, ns |-> "", from |-> "", to |-> "", w |-> ""]
Full(b) ==
  CASE b.k = "entity" -> {[b EXCEPT !.ty = "T1"]}
    [] b.k = "resource" -> {[b EXCEPT !.ty = "T2", !.name = "n2", !.group = "g", !.version = "v", !.kind = "k", !.nsd = x] : x \in BOOLEAN}
    [] b.k = "object" -> {[b EXCEPT !.ty = "T3", !.name = "n3", !.ns = "ns", !.res = r] : r \in {""} \cup Of({"resource"})}
    [] b.k = "link" -> {[b EXCEPT !.from = "p", !.to = "q"]}
    [] b.k = "node" -> {[b EXCEPT !.res = e] : e \in Of({"entity", "resource", "object"})}
    [] b.k = "edge" -> {[b EXCEPT !.from = x, !.to = y, !.w = w] : x \in Of({"node"}), y \in Of({"node"}), w \in {"", "0", "2.5"}}
\* and with one of the texts empty
Texts(k) == CASE k = "entity" -> {"ty"} [] k = "resource" -> {"ty", "name", "group", "version", "kind"} [] k = "object" -> {"ty", "name", "ns"}
              [] k = "link" -> {"from", "to"} [] OTHER -> {}
Fields(b) == IF Profile # "marshal" \/ N # 1 THEN Full(b)
             ELSE Full(b) \cup {[f EXCEPT ![t] = ""] : f \in Full(b), t \in Texts(b.k)}
Opts(b) == {[b EXCEPT !.uid = u, !.at = a, !.dot = d, !.own = o] :
              u \in IF b.k = "node" THEN {""} ELSE {"", "u" \o F(N)}, a \in {""} \cup {x \in AttrNames : x \notin ValNames},
              d \in IF b.k = "link" THEN {""} ELSE {"", "d" \o F(N)}, o \in IF b.k \in {"node", "edge"} THEN {FALSE} ELSE BOOLEAN}
\* values that the caller implements have a UID and attributes and no DOT ID
Sane(b) == b.own => b.uid # "" /\ b.at # "" /\ b.dot = ""
Makes(ks) == {b \in UNION {Opts(f) : f \in UNION {Fields(Base(k, N)) : k \in ks}} : Sane(b)}

Settable == {a \in AttrNames : ~Bad(st, a)}
Sets == {[o |-> "set", n |-> a, key |-> k, val |-> v] : a \in Settable, k \in {"k1", "k2"}, v \in {"x", ""}}
NewAttrs == {[o |-> "new", n |-> "a" \o F(N)], [o |-> "map", n |-> "m" \o F(N), kv |-> <<<<"k1", "x">>, <<"k3", "">>>>], [o |-> "bad", n |-> "b" \o F(N)]}
Copies == {[o |-> "copy", n |-> "c" \o F(N), src |-> s, as |-> a] : s \in {""} \cup AttrNames, a \in {"attrs", "map"}}

Blobs == DOMAIN st.blob
Targets(k) == {""} \cup Of({k})
Ops ==
  CASE Profile = "attrs" -> Sets \cup NewAttrs \cup {c \in Copies : c.src # "" \/ c.as = "attrs"}
    [] Profile = "make" ->
         IF N = 0 THEN {[o |-> "map", n |-> "a0", kv |-> <<<<"k1", "x">>>>]}
         ELSE (IF N < 3 THEN Makes({"entity", "resource", "object", "link"}) ELSE {}) \cup (IF N \in 2..3 THEN Makes({"node"}) ELSE {})
              \cup (IF N >= 3 THEN Makes({"edge"}) ELSE {})
              \cup {[o |-> "set", n |-> a, key |-> "k1", val |-> "y"] : a \in Settable}
              \cup {[o |-> "setdot", n |-> x, dot |-> "D" \o F(N)] : x \in {y \in ValNames : HasDot(st.v[y])}}
              \cup {[o |-> "rev", n |-> "x" \o F(N), src |-> x] : x \in Of({"edge"})}
    [] Profile = "marshal" ->
         IF N = 0 THEN {[o |-> "map", n |-> "a0", kv |-> <<<<"k1", "x">>, <<"k2", "">>>>], [o |-> "bad", n |-> "a0"], [o |-> "new", n |-> "a0"]}
         ELSE (IF N <= 2 THEN {b \in Makes({"entity", "resource", "object", "link"}) : b.at # "" /\ b.uid # "" /\ b.dot = ""} ELSE {})
              \cup {[o |-> "marshal", x |-> x, b |-> "j" \o F(N)] : x \in Of(Kinds)}
              \cup UNION {{[o |-> "unmarshal", b |-> b, k |-> k, n |-> "x" \o F(N), t |-> t] : k \in AsKinds(st.blob[b]), t \in {""}} : b \in Blobs}
              \cup UNION {{[o |-> "garbage", b |-> b, k |-> st.blob[b].v.k, n |-> "x" \o F(N), t |-> t, how |-> w] :
                              t \in Targets(st.blob[b].v.k), w \in {"cut", "type", "attrs", "empty", "tail", "resource"}} : b \in Blobs}
              \cup UNION {{[o |-> "wire", x |-> x, k |-> st.v[x].k, n |-> "x" \o F(N)]} : x \in Of(Kinds)}
              \cup (IF N = 2 THEN {[o |-> "unsup", what |-> w, x |-> x] : w \in {"nil", "text", "pointer", "wire", "into-nil", "into-text", "into-value", "into-concrete", "into-wire"},
                                     x \in ValNames} ELSE {})
              \cup {[o |-> "set", n |-> a, key |-> "k1", val |-> "y"] : a \in Settable}

\* the UID made up by the nth operation
Fresh == "f" \o F(N)
Res(op) == {x \in Eff(st, op, Fresh) : TRUE}

Init == st = SpaceInit([x |-> 0]) /\ last = [o |-> "none"] /\ script = <<>>
Next == /\ N < MaxOps
        /\ \E op \in Ops : \E x \in Res(op) :
             /\ st' = x.st
             /\ last' = [o |-> op.o, op |-> op, err |-> x.err]
             /\ script' = Append(script, op)
View == <<st, N>>
Emit == PrintT("S " \o ToJson(script'))

\* ------------------------------------------------------------------ properties
\* everything a value is made of exists
Whole == /\ DOMAIN st.v \subseteq DOMAIN st.h
         /\ \A n \in DOMAIN st.h : st.h[n] \in 1..Len(st.sets)
         /\ \A n \in DOMAIN st.v : st.v[n].uid # "" /\ (st.v[n].res # "" => st.v[n].res \in DOMAIN st.v)
\* a value made with no attributes has none and shares them with nothing
Private == [][last'.o = "mk" /\ last'.op.at = "" =>
                LET n == last'.op.n IN Content(st', n) = {} /\ \A m \in DOMAIN st'.h \ {n} : st'.h[m] # st'.h[n]]_vars
\* a copy equals its source and shares nothing
Copied == [][last'.o = "copy" /\ last'.err = "ok" =>
                LET n == last'.op.n
                IN /\ Content(st', n) = (IF last'.op.src = "" THEN {} ELSE Content(st, last'.op.src))
                   /\ \A m \in DOMAIN st'.h \ {n} : st'.h[m] # st'.h[n]]_vars
\* setting an attribute changes that key of that set and nothing else
Local == [][last'.o = "set" =>
              \A m \in DOMAIN st.h :
                IF st.h[m] = st.h[last'.op.n] THEN <<last'.op.key, last'.op.val>> \in Content(st', m)
                                                  /\ {p \in Content(st', m) : p[1] # last'.op.key} = {p \in Content(st, m) : p[1] # last'.op.key}
                ELSE Content(st', m) = Content(st, m)]_vars
\* a key has one value
OneValue == \A j \in 1..Len(st.sets) : Cardinality(Keys(st.sets[j])) = Cardinality(st.sets[j])
\* what comes out is what went in
Same(s, v, k) == /\ v.uid = s.uid /\ v.ty = s.ty
                 /\ k # "entity" => v.name = s.name /\ v.group = s.group /\ v.version = s.version /\ v.kind = s.kind
                                    /\ v.nsd = s.nsd /\ v.ns = s.ns /\ v.from = s.from /\ v.to = s.to
RoundTrip ==
  [][last'.o \in {"unmarshal", "wire"} /\ last'.err = "ok" =>
       LET op == last'.op
           s == IF op.o = "wire" THEN Snap(st, op.x) ELSE st.blob[op.b]
           v == st'.v[op.n]
       IN /\ Same(s.v, v, op.k)
          /\ Content(st', op.n) = s.at
          /\ IF op.k = "object" /\ s.r # <<>> THEN Same(s.r[1].v, st'.v[v.res], "resource") /\ Content(st', v.res) = s.r[1].at
             ELSE v.res = ""
          /\ \A m \in DOMAIN st.h : m # op.n => st'.h[m] # st'.h[op.n]]_vars
\* a failure changes nothing
Harmless == [][last'.err # "ok" => st' = st]_vars
=============================================================================
