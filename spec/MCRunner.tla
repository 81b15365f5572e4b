------------------------------ MODULE MCRunner ------------------------------
EXTENDS Runner, Json

CONSTANTS MaxOps, MaxOpts
VARIABLES st, last, script

N == Len(script)
F == {<<"s", "s1">>, <<"s", "s2">>, <<"b", "b1">>, <<"b", "b2">>, <<"m", "m1">>, <<"m", "m2">>}
Opts == UNION {[1..k -> F] : k \in 0..MaxOpts}
Ops == IF N = 0 THEN {[o |-> "new", r |-> "r0", opts |-> x] : x \in Opts}
       ELSE {[o |-> "run", id |-> "i" \o ToString(N), r |-> r, plan |-> p, ctx |-> "c" \o ToString(N), ret |-> e, opts |-> x] :
               r \in DOMAIN st.rs, p \in {"", "p" \o ToString(N)}, e \in {"ok", "e" \o ToString(N)}, x \in Opts}
            \cup {[o |-> "later", id |-> k] : k \in DOMAIN st.seen}

Init == st = RunnerInit([x |-> 0]) /\ last = [op |-> [o |-> "none"]] /\ script = <<>>
Next == /\ N < MaxOps
        /\ \E op \in Ops : /\ st' = Effect(st, op)
                           /\ last' = [op |-> op]
                           /\ script' = Append(script, op)
View == <<st, N>>
Emit == PrintT("S " \o ToJson(script'))

\* ------------------------------------------------------------------ properties
Given(opts, f) == {j \in 1..Len(opts) : opts[j][1] = f}
LastOf(opts, f, or) == IF Given(opts, f) = {} THEN or ELSE opts[CHOOSE j \in Given(opts, f) : \A k \in Given(opts, f) : k <= j][2]
\* every option given to the run reaches the scraper; where none is given, the runner's
Forwarded ==
  [][last'.op.o = "run" /\ last'.op.plan # "" =>
       LET op == last'.op
           c == Hands(st, op)
       IN /\ Len(c) = 1 /\ c[1].ctx = op.ctx /\ c[1].plan = op.plan
          /\ c[1].s = LastOf(op.opts, "s", st.rs[op.r].s)
          /\ c[1].b = LastOf(op.opts, "b", st.rs[op.r].b)
          /\ c[1].m = LastOf(op.opts, "m", st.rs[op.r].m)
          /\ Fails(op) = op.ret]_<<st, last, script>>
\* without a plan nothing is run
Planless == [][last'.op.o = "run" /\ last'.op.plan = "" =>
                 Hands(st, last'.op) = <<>> /\ Fails(last'.op) = "ErrMissingPlan" /\ st' = st]_<<st, last, script>>
\* a run does not change the runner
Kept == [][last'.op.o # "new" => st'.rs = st.rs]_<<st, last, script>>
=============================================================================
