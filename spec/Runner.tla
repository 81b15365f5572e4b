------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* The scrape runner (runner.go, options.go).                              *)
(*                                                                         *)
(*   rs    the options every runner was created with, [s, b, m]: store,    *)
(*         broker and marshaler, "" where none was given                   *)
(*   seen  the options every run handed to its scraper                     *)
(*                                                                         *)
(* Options are given as a sequence of <<field, value>>; of several for the *)
(* same field the last one counts.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == [s |-> "", b |-> "", m |-> ""]
RECURSIVE Applied(_, _)
Applied(c, opts) ==
  IF opts = <<>> THEN c
  ELSE LET f == opts[1][1]
           x == opts[1][2]
       IN Applied([s |-> IF f = "s" THEN x ELSE c.s, b |-> IF f = "b" THEN x ELSE c.b, m |-> IF f = "m" THEN x ELSE c.m], Tail(opts))

RunnerInit(cfg) == [rs |-> <<>>, seen |-> <<>>]

Put(f, k, x) == (k :> x) @@ f

\* what the scraper is called with, once; nothing without a plan
Hands(st, op) == IF op.plan = "" THEN <<>>
                 ELSE <<[ctx |-> op.ctx, plan |-> op.plan] @@ Applied(st.rs[op.r], op.opts)>>
Fails(op) == IF op.plan = "" THEN "ErrMissingPlan" ELSE op.ret

Effect(st, op) ==
  CASE op.o = "new" -> [st EXCEPT !.rs = Put(@, op.r, Applied(None, op.opts))]
    [] op.o = "run" -> IF op.plan = "" THEN st ELSE [st EXCEPT !.seen = Put(@, op.id, Applied(st.rs[op.r], op.opts))]
    [] OTHER -> st

Returns(st, op, res) ==
  CASE op.o = "new" -> res.err = "ok"
    [] op.o = "run" -> /\ res.err = Fails(op)
                       /\ res.calls = Hands(st, op)
    \* the options that an earlier run handed to its scraper, looked at again
    [] op.o = "later" -> res.err = "ok" /\ [s |-> res.s, b |-> res.b, m |-> res.m] = st.seen[op.id]
    [] OTHER -> FALSE

RunnerPost(st, op, res) == IF Returns(st, op, res) THEN {Effect(st, op)} ELSE {}
=============================================================================
