"""The checks, one function per property."""
import os
from engine import parallel


def cat(run, name, files):
    out = os.path.join(run.work, name)
    with open(out, "w") as g:
        for f in files:
            g.write(open(f).read())
    return out


def seq(run, pkg, trace, models, env, mode="seq"):
    """Model-check, replay the model's scripts and random histories, judge the traces."""
    res = parallel(lambda: run.build(pkg), *[(lambda m=m: run.model_check(m[0], m[1], workers=4)) for m in models])
    scripts = cat(run, pkg + ".scripts", res[1:])
    tr = run.drive(res[0], pkg + "-" + mode, ["-mode", mode, "-scripts", scripts], env)
    run.validate(trace, tr, "scripts of the model and random histories")


def conc(run, pkg, trace, models, env):
    """Schedules with one preemption, random concurrent histories, hammering; with the race detector."""
    res = parallel(lambda: run.build(pkg, race=True),
                   *[(lambda m=m: run.model_check(m[0], m[1], scripts=False, workers=4)) for m in models])
    tr = run.drive(res[0], pkg + "-conc", ["-mode", "conc"], env)
    run.validate(trace, tr, "one-preemption schedules and random concurrent histories")
    tr = run.drive(res[0], pkg + "-hammer", ["-mode", "hammer"], env)
    run.validate(trace, tr, "unrecorded concurrent load, then the final contents")


def C17(run):
    t = run.thorough
    seq(run, "links", "TraceLinks", [("MCLinks", "MCLinks_c17")] + ([("MCLinks", "MCLinks_c17t")] if t else []),
        {"RANDOM": 8000 if t else 1500, "LENGTH": 60 if t else 40})


def C18(run):
    t = run.thorough
    seq(run, "links", "TraceLinks", [("MCLinks", "MCLinks_c18"), ("MCLinks", "MCLinks_c18b")],
        {"RANDOM": 8000 if t else 1500, "LENGTH": 60 if t else 40})


def C19(run):
    t = run.thorough
    conc(run, "links", "TraceLinks", [("MCLinks", "MCLinks_c18")],
         {"RANDOM": 8000 if t else 900, "MAXK": 12, "HAMMERS": 30 if t else 4, "HAMMER_OPS": 5000 if t else 3000})


def C20(run):
    t = run.thorough
    res = parallel(lambda: run.build("plan"), lambda: run.build("plan", race=True),
                   lambda: run.model_check("MCPlan", "MCPlan", workers=4))
    tr = run.drive(res[0], "plan-seq", ["-mode", "seq", "-scripts", res[2]], {"RANDOM": 10000 if t else 1500})
    run.validate("TracePlan", tr, "scripts of the model and random histories")
    env = {"RANDOM": 8000 if t else 900, "HAMMERS": 30 if t else 3}
    tr = run.drive(res[1], "plan-conc", ["-mode", "conc"], env)
    run.validate("TracePlan", tr, "one-preemption schedules and random concurrent histories")
    tr = run.drive(res[1], "plan-hammer", ["-mode", "hammer"], env)
    run.validate("TracePlan", tr, "unrecorded concurrent load, then the final contents")


def graph_seq(run, models, thorough=(), rnd=1200):
    t = run.thorough
    seq(run, "graph", "TraceGraph", [("MCGraph", "MCGraph_" + m) for m in list(models) + (list(thorough) if t else [])],
        {"RANDOM": 8 * rnd if t else rnd, "LENGTH": 60 if t else 30})


def C09(run):
    graph_seq(run, ["c09", "c09u"], ["c09t"])


def C10(run):
    graph_seq(run, ["c10", "c10d"])


def C11(run):
    graph_seq(run, ["c11", "c11u"], ["c11t"])


def C12(run):
    t = run.thorough
    conc(run, "graph", "TraceGraph", [("MCGraph", "MCGraph_c10d")],
         {"RANDOM": 6000 if t else 500, "MAXK": 30 if t else 10, "HAMMERS": 30 if t else 4, "HAMMER_OPS": 3000 if t else 800})


def C13(run):
    graph_seq(run, ["c13"])


def store_seq(run, models, thorough=()):
    t = run.thorough
    seq(run, "store", "TraceStore", [("MCStore", "MCStore_" + m) for m in list(models) + (list(thorough) if t else [])],
        {"RANDOM": 10000 if t else 2000, "LENGTH": 60 if t else 30})


def C14(run):
    store_seq(run, ["c14", "c14b"], ["c14t"])


def C15(run):
    store_seq(run, ["c15", "c15b"], ["c15t"])


def C16(run):
    t = run.thorough
    conc(run, "store", "TraceStore", [("MCStore", "MCStore_c15")],
         {"RANDOM": 6000 if t else 800, "MAXK": 40 if t else 16, "HAMMERS": 30 if t else 4, "HAMMER_OPS": 3000 if t else 800})


def broker(run, scripts, models, thorough=(), rnd=1400, races=200):
    """scripts: models whose scripts are replayed; models: explored with all invariants.
    A trace is first judged by the whole specification; if that rejects it, by what the
    property demands on its own."""
    t = run.thorough
    relaxed = ("TraceOrder", {}) if run.prop == "C02" else ("TraceBroker", {"PROP": run.prop})
    res = parallel(lambda: run.build("broker", test=True), lambda: run.build("broker", test=True, race=True),
                   *[(lambda m=m: run.model_check("MCBroker", "MCBroker_" + m, workers=4)) for m in scripts],
                   *[(lambda m=m: run.model_check("MCBroker", "MCBroker_" + m, scripts=False, workers=4))
                     for m in list(models) + (list(thorough) if t else [])])
    sc = cat(run, "broker.scripts", res[2:2 + len(scripts)])
    tr = run.drive(res[0], "broker-scripts", env={"SCRIPTS": sc, "SCRIPTS_MAX": 100000 if t else 4000, "RANDOM": 0})
    run.validate_relaxed("TraceBroker", relaxed, tr, "scripts of the model")
    for procs in (8, 1):
        tr = run.drive(res[0], "broker-random%d" % procs, env={"RANDOM": (10 * rnd if t else rnd) // 2, "LENGTH": 40 if t else 25,
                                                              "GOMAXPROCS": procs, "CROWD": 110 if procs == 8 else 40, "FILL": (1100 if t else 450) if procs == 8 else 0, "VERIF_SEED": run.seed + procs * 1000})
        run.validate_relaxed("TraceBroker", relaxed, tr, "random histories with schedule control, GOMAXPROCS=%d" % procs)
    tr = run.drive(res[1], "broker-race", env={"RANDOM": 10 * races if t else races, "LENGTH": 25, "VERIF_SEED": run.seed + 7777})
    run.validate_relaxed("TraceBroker", relaxed, tr, "random histories with the race detector")


def C01(run):
    broker(run, ["c01"], ["ghost"], ["ghost_t"])


def C02(run):
    broker(run, ["c02"], ["ghosto"], ["ghosto_t"])


def C03(run):
    broker(run, ["c03", "c03b"], ["ghostt"], ["ghostt_t"])


def C04(run):
    broker(run, ["c04"], ["ghosts"], ["ghosts_t"])


def C05(run):
    broker(run, ["c05", "c05b"], [], ["ghostall"])


def C06(run):
    broker(run, ["c06"], ["ghostall"], ["ghostall_t"])


def C07(run):
    t = run.thorough
    env = {"RANDOM": 8000 if t else 1500, "REAL": 2000 if t else 400}
    res = parallel(lambda: run.build("pipe"), lambda: run.build("pipe", race=True),
                   lambda: run.model_check("MCPipe", "MCPipe_c07", workers=4))
    tr = run.drive(res[0], "pipe-seq", ["-mode", "seq", "-scripts", res[2]], env)
    run.validate("TracePipe", tr, "scripts of the model, random calls, values sent through the real broker")
    tr = run.drive(res[1], "pipe-conc", ["-mode", "conc"], env)
    run.validate("TracePipe", tr, "one-preemption schedules and concurrent calls of one ingester")


def C08(run):
    t = run.thorough
    env = {"RANDOM": 8000 if t else 1200, "REAL": 0}
    res = parallel(lambda: run.build("pipe"), lambda: run.build("pipe", race=True),
                   lambda: run.build("broker", test=True), lambda: run.build("broker", test=True, race=True),
                   lambda: run.model_check("MCPipe", "MCPipe_c08", workers=4),
                   lambda: run.model_check("MCBroker", "MCBroker_c08_t" if t else "MCBroker_c08", workers=4))
    tr = run.drive(res[0], "pipe-seq", ["-mode", "seq", "-scripts", res[4]], env)
    run.validate("TracePipe", tr, "scripts of the model and random subscribers")
    tr = run.drive(res[1], "pipe-conc", ["-mode", "conc"], env)
    run.validate("TracePipe", tr, "one-preemption schedules and concurrent calls of one digester")
    tr = run.drive(res[2], "digest-scripts", env={"SCRIPTS": res[5], "SCRIPTS_MAX": 100000 if t else 4000, "RANDOM": 0})
    run.validate("TraceDigest", tr, "scripts of the model on the real broker")
    for procs in (8, 1):
        tr = run.drive(res[2], "digest-random%d" % procs, env={"RANDOM": 5000 if t else 600, "LENGTH": 40 if t else 25, "GOMAXPROCS": procs,
                                                              "VERIF_SEED": run.seed + procs * 1000})
        run.validate("TraceDigest", tr, "random histories on the real broker, GOMAXPROCS=%d" % procs)
    tr = run.drive(res[3], "digest-race", env={"RANDOM": 1000 if t else 100, "LENGTH": 25, "VERIF_SEED": run.seed + 7777})
    run.validate("TraceDigest", tr, "random histories on the real broker with the race detector")


def C21(run):
    t = run.thorough
    seq(run, "space", "TraceSpace", [("MCSpace", "MCSpace_marshal")], {"MARSHAL": 1, "RANDOM": 10000 if t else 1200, "LENGTH": 40 if t else 30})


def C22(run):
    t = run.thorough
    seq(run, "space", "TraceSpace", [("MCSpace", "MCSpace_attrs"), ("MCSpace", "MCSpace_make")],
        {"RANDOM": 8000 if t else 800, "LENGTH": 40 if t else 30})


def C23(run):
    t = run.thorough
    res = parallel(lambda: run.build("runner"), lambda: run.build("runner", race=True),
                   lambda: run.model_check("MCRunner", "MCRunner_t" if t else "MCRunner", workers=4))
    tr = run.drive(res[0], "runner-seq", ["-mode", "seq", "-scripts", res[2]], {"RANDOM": 10000 if t else 1500})
    run.validate("TraceRunner", tr, "scripts of the model and random histories")
    tr = run.drive(res[1], "runner-conc", ["-mode", "conc"], {"RANDOM": 10000 if t else 1000})
    run.validate("TraceRunner", tr, "one-preemption schedules and concurrent runs of one runner")


CHECKS = {k: v for k, v in list(globals().items()) if k[0] == "C" and k[1:].isdigit()}

ASSUMPTIONS = {
    "*": ["TLC and its CommunityModules evaluate the specification correctly",
          "the harness records calls, results and handler invocations in real-time order (one mutex)",
          "the caller-supplied UIDs, entities, attributes and contexts behave as their interfaces say"],
}
NOTES = {
    "*": "Exhaustive for the specification within small constants; the code is bound to it by replaying every "
         "transition of that exploration and by validating recorded random and concurrent histories, so code "
         "behaviour is explored, not proved.",
}
