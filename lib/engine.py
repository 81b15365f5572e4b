"""Runs one property check: model checking, scripts from the model replayed on the
real code, traces of the real code judged by the model.  See DESIGN.md."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NETSCRAPE_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
UNDER_TEST = "github.com/milosgajdos/netscrape"
CHUNK = 150 << 20  # bytes of traces judged at a time


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


class TLCTimeout(CheckError):
    def __init__(self, msg, log):
        super().__init__(msg)
        self.log = log


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % prop)
        self.states = self.transitions = 0
        self.model_runs = []
        self.trace_runs = []
        self.validated = 0
        self.events = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.lock = threading.Lock()
        env = dict(os.environ)
        env.update(GOFLAGS="-mod=mod -tags=safe", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
                   HOME="/root", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
                   GOSUMDB="off", PROP=prop, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
        env.pop("TRACES", None)
        env.pop("DEBUG", None)
        self.env = env
        d = os.path.join(VERIF, "evidence", "replay")
        for f in os.listdir(d) if os.path.isdir(d) else []:
            if f.startswith(prop + "-"):
                os.remove(os.path.join(d, f))
        self._prepare_module()

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ Go
    def _prepare_module(self):
        """A copy of the harness as a module that uses /repo's working tree."""
        h = os.path.join(self.work, "h")
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        mod = open(os.path.join(REPO, "go.mod")).read()
        mod = re.sub(r"(?m)^module .*$", "", mod)
        mod = re.sub(r"(?m)^go .*$", "", mod)
        mod = re.sub(r"(?m)^toolchain .*$", "", mod)
        with open(os.path.join(h, "go.mod"), "w") as f:
            f.write("module verif\n\ngo 1.26\n\nrequire %s v0.0.0\n\nreplace %s => %s\n\n%s\n"
                    % (UNDER_TEST, UNDER_TEST, REPO, mod))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        self.h = h

    def build(self, pkg, race=False, test=False):
        out = os.path.join(self.work, pkg + (".race" if race else "") + (".test" if test else ".bin"))
        cmd = ["go", "test", "-c"] if test else ["go", "build"]
        cmd += ["-trimpath", "-o", out] + (["-race"] if race else []) + ["./" + pkg]
        p = subprocess.run(cmd, cwd=self.h, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("building %s failed:\n%s" % (pkg, p.stdout[-3000:]))
        self.log("built", os.path.basename(out))
        return out

    def drive(self, binary, name, args=(), env=None, timeout=None):
        """Runs the harness; returns the file of recorded traces."""
        timeout = timeout or (3000 if self.thorough else 400)
        out = os.path.join(self.work, name + ".ndjson")
        if self.enough(name):
            return out
        race = os.path.join(self.work, name + ".racelog")
        e = dict(self.env)
        e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + race
        e["TRACE_OUT"] = out
        e.update({k: str(v) for k, v in (env or {}).items()})
        if binary.endswith(".test"):
            cmd = [binary, "-test.v=false", "-test.timeout=0"] + list(args)
        else:
            cmd = [binary, "-out", out] + list(args)
        try:
            p = subprocess.Popen(cmd, env=e, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", text=True)
            so, se = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.send_signal(signal.SIGQUIT)
            try:
                so, se = p.communicate(timeout=30)
            except subprocess.TimeoutExpired:
                p.kill()
                so, se = p.communicate()
            hung = True
        p.stdout, p.stderr = so, se
        extra = []
        if hung:
            # a call of the code under test that has been blocked for minutes is an event no specification allows
            for g in re.split(r"\n\n", p.stderr + p.stdout):
                if re.match(r"\s*goroutine \d+[^\n]*\[[^\]\n]*, \d+ minutes", g) and (UNDER_TEST + "/") in g:
                    extra.append({"id": name + "-hang", "cfg": {"x": 0}, "ev": [{"e": "crash", "what": "blocked", "stack": g[-4000:]}]})
                    break
            else:
                raise CheckError("harness %s did not finish in %d s" % (name, timeout))
        elif p.returncode != 0:
            # the process died.  A crash inside the code under test is an event
            # no specification allows; anything else is our own failure.
            err = p.stderr + p.stdout
            if "HARNESS-ERROR" not in err and (UNDER_TEST + "/") in err and \
                    ("fatal error:" in err or "panic:" in err or "goroutine " in err):
                m = re.search(r"(fatal error: .*|panic: .*)", err)
                extra.append({"id": name + "-crash", "cfg": {"x": 0},
                              "ev": [{"e": "crash", "what": m.group(1) if m else "crash",
                                      "stack": err[-4000:]}]})
            else:
                raise CheckError("harness %s failed (%d):\n%s" % (name, p.returncode, err[-3000:]))
        d = os.path.dirname(race)
        for f in sorted(os.listdir(d)):
            if f.startswith(os.path.basename(race)):
                txt = open(os.path.join(d, f), errors="replace").read()
                for rep in txt.split("=================="):
                    if "DATA RACE" in rep and self._race_in_code(rep):
                        extra.append({"id": name + "-race", "cfg": {"x": 0},
                                      "ev": [{"e": "race", "report": rep.strip()[:6000]}]})
                        break
                if extra and extra[-1]["id"].endswith("-race"):
                    break
        if extra:
            # drop a partial last line of a process that died
            lines = []
            if os.path.exists(out):
                for ln in open(out, errors="replace"):
                    try:
                        json.loads(ln)
                        lines.append(ln)
                    except ValueError:
                        pass
            with open(out, "w") as f:
                f.writelines(lines)
                for t in extra:
                    f.write(json.dumps(t) + "\n")
        return out

    @staticmethod
    def _race_in_code(rep):
        """Both accesses happened inside a call of the code under test."""
        parts = re.split(r"\n\s*Previous ", rep)
        if len(parts) != 2:
            return False
        second = re.split(r"\n\s*Goroutine ", parts[1])[0]
        return all((UNDER_TEST + "/") in s or (UNDER_TEST + ".") in s for s in (parts[0], second))

    # ----------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, env=None, workers=8, timeout=900, extra=(), heap="6g"):
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-deadlock",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module]
        e = dict(self.env)
        e.update(env or {})
        log = os.path.join(meta, "out.log")
        with open(log, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise TLCTimeout("TLC %s %s did not finish in %d s" % (module, cfg, timeout), log)
        return rc, log

    def model_check(self, module, cfg, scripts=True, timeout=900, extra=(), workers=8):
        """Exhaustive exploration; returns the file of scripts (or None)."""
        rc, log = self._tlc(module + ".tla", cfg + ".cfg", env={"PROP": "ALL"}, timeout=timeout, extra=extra, workers=workers)
        out = os.path.join(self.work, cfg + ".scripts")
        n = 0
        tail = []
        states = trans = 0
        left = None
        seen = set()
        with open(log, errors="replace") as f, open(out, "w") as g:
            for ln in f:
                if ln.startswith('"S '):
                    if scripts:
                        s = json.loads(ln)[2:]
                        if s not in seen:
                            seen.add(s)
                            g.write(s + "\n")
                            n += 1
                    continue
                tail.append(ln)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", ln)
                if m:
                    trans, states, left = int(m.group(1)), int(m.group(2)), int(m.group(3))
        if rc != 0 or left is None:
            raise CheckError("TLC on %s (%s) ended with %d:\n%s" % (module, cfg, rc, "".join(tail[-60:])))
        with self.lock:
            self.states += states
            self.transitions += trans
            self.model_runs.append({"module": module, "config": cfg, "distinct_states": states,
                                    "transitions": trans, "scripts": n, "complete": left == 0})
        self.log("TLC %s/%s: %d states, %d transitions, %d scripts" % (module, cfg, states, trans, n))
        os.remove(log)
        return out if scripts else None

    def validate_relaxed(self, strict, relaxed, traces, label, timeout=300):
        """Traces that the whole specification rejects are judged again by what the property
        demands on its own: relaxed = (module, environment)."""
        lines = [ln for ln in open(traces, errors="replace") if ln.strip()] if os.path.exists(traces) else []
        if self.enough(label):
            return
        rejected = self.validate(strict, traces, label, env={"PROP": "ALL"}, timeout=timeout, report=False, patient=True)
        if not rejected:
            return
        rejected.sort(key=lambda k: len(lines[k - 1]))
        module, env = relaxed
        self.log("%d traces break some property of this component; is it %s?" % (len(rejected), self.prop))
        left = []
        for start in range(0, min(len(rejected), 60), 20):
            part = [lines[k - 1] for k in rejected[start:start + 20]]
            f = os.path.join(self.work, "rejected.ndjson")
            open(f, "w").writelines(part)
            acc, rc = self._accepted(module, dict(env, TRACES=f), 60)
            left += [(ln, rc) for j, ln in enumerate(part, 1) if j not in acc]
            if len(left) >= 3:
                break
        others = len(rejected) - len(left)
        if others:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, self.prop + "-unjudged.ndjson"), "a") as g:
                g.writelines(lines[k - 1] for k in rejected if lines[k - 1] not in [x for x, _ in left])
            self.notes.append("%s: %d traces rejected by the whole specification are not judged against %s"
                              % (label, others, self.prop))
        for ln, _ in left[:3]:
            self._violation(module, module + ".cfg", env, json.loads(ln), label, 20)

    def enough(self, label):
        """Three violations are enough: what is left to do would add nothing to the verdict."""
        if len(self.violations) < 3:
            return False
        self.log("%s: skipped, there are %d violations already" % (label, len(self.violations)))
        return True

    def _accepted(self, module, env, timeout):
        """(accepted traces, exit code of TLC or None)"""
        try:
            rc, log = self._tlc(module + ".tla", module + ".cfg", env=env, timeout=timeout)
        except TLCTimeout as ex:
            rc, log = None, ex.log
        return {int(l.strip().strip('"').split()[1]) for l in open(log, errors="replace") if re.match(r'"ACC \d+"', l)}, rc

    def validate(self, module, traces, label, cfg=None, env=None, timeout=900, sample=True, report=True,
                 patient=False):
        """Which recorded traces are behaviours of the specification?  (patient: those that are
        not accepted in time count as rejected, the caller looks at them again.)"""
        if report and self.enough(label):
            return []
        if not os.path.exists(traces):
            raise CheckError("no traces from " + label)
        lines = [ln for ln in open(traces, errors="replace") if ln.strip()]
        if not lines:
            raise CheckError("no traces from " + label)
        cfg = (cfg or module) + ".cfg"
        rejected, done, states, trans = [], 0, 0, 0
        while done < len(lines) and (len(rejected) < 3 or not report):
            size = n = 0
            while done + n < len(lines) and (n == 0 or size + len(lines[done + n]) < CHUNK):
                size += len(lines[done + n])
                n += 1
            bad, st, tr = self._judge(module, cfg, env, lines[done:done + n], timeout, patient)
            rejected += [done + k for k in bad]
            states, trans, done = states + st, trans + tr, done + n
        if done < len(lines):
            self.log("%s: the last %d traces are skipped, %d are rejected already" % (label, len(lines) - done, len(rejected)))
            lines = lines[:done]
        nev = 0
        for ln in lines:
            nev += ln.count('"e":') or ln.count('"e": ')
        with self.lock:
            self.validated += len(lines) - len(rejected)
            self.events += nev
            self.trace_runs.append({"source": label, "module": module, "traces": len(lines), "events": nev,
                                    "accepted": len(lines) - len(rejected), "rejected": len(rejected),
                                    "spec_states_explored": states, "spec_transitions_explored": trans})
            if sample and lines:
                self.samples.append({"source": label, "trace": json.loads(lines[len(lines) // 2])})
        self.log("%s: %d traces (%d events), %d rejected" % (label, len(lines), nev, len(rejected)))
        if not report:
            return rejected
        for k in rejected[:3]:
            self._violation(module, cfg, env, json.loads(lines[k - 1]), label, timeout)
        if len(rejected) > 3:
            self.notes.append("%s: %d further traces rejected" % (label, len(rejected) - 3))
        return rejected

    def _judge(self, module, cfg, env, lines, timeout, patient):
        """Numbers (from 1) of the lines TLC rejects, states and transitions explored."""
        traces = os.path.join(self.work, "judged-%d.ndjson" % threading.get_ident())
        open(traces, "w").writelines(lines)
        e = dict(env or {})
        e["TRACES"] = traces
        try:
            rc, log = self._tlc(module + ".tla", cfg, env=e, timeout=timeout)
        except TLCTimeout as ex:
            if not patient:
                raise
            rc, log = 0, ex.log
        acc = set()
        tail = []
        states = trans = 0
        for ln in open(log, errors="replace"):
            if ln.startswith('"ACC '):
                acc.add(int(ln.strip().strip('"').split()[1]))
                continue
            tail.append(ln)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", ln)
            if m:
                trans, states = int(m.group(1)), int(m.group(2))
        if rc != 0:
            # a trace whose values do not even have the right shape: find it by halving
            bad = self._ill_shaped(module, cfg, lines, env, timeout)
            if bad is None:
                raise CheckError("TLC on %s ended with %d:\n%s" % (module, rc, "".join(tail[-40:])))
            return bad, states, trans
        return [k for k in range(1, len(lines) + 1) if k not in acc], states, trans

    def _ill_shaped(self, module, cfg, lines, env, timeout):
        t0 = time.time()
        bad = []

        def ok(idx):
            p = os.path.join(self.work, "part.ndjson")
            open(p, "w").writelines(lines[i] for i in idx)
            e = dict(env or {})
            e["TRACES"] = p
            rc, log = self._tlc(module + ".tla", cfg, env=e, timeout=timeout)
            acc = {int(l.strip().strip('"').split()[1]) for l in open(log, errors="replace") if l.startswith('"ACC ')}
            return rc, acc

        def rec(idx):
            if len(bad) >= 3 or time.time() - t0 > 180:
                return
            rc, acc = ok(idx)
            if rc == 0:
                bad.extend(idx[k - 1] + 1 for k in range(1, len(idx) + 1) if k not in acc)
            elif len(idx) == 1:
                bad.append(idx[0] + 1)
            else:
                rec(idx[:len(idx) // 2])
                if not bad:
                    rec(idx[len(idx) // 2:])
        rec(list(range(len(lines))))
        return bad or None

    def _violation(self, module, cfg, env, trace, label, timeout):
        one = os.path.join(self.work, "one.ndjson")
        open(one, "w").write(json.dumps(trace) + "\n")
        e = dict(env or {})
        e.update(TRACES=one, DEBUG="1")
        try:
            rc, log = self._tlc(module + ".tla", cfg, env=e, workers=1, timeout=timeout)
        except TLCTimeout as ex:
            rc, log = 0, ex.log
        best, sts = -1, []
        text = open(log, errors="replace").read()
        for m in re.finditer(r'^"AT 1 (\d+) (.*?)"$', text, re.S | re.M):
            k = int(m.group(1))
            if k > best:
                best, sts = k, []
            if k == best and len(sts) < 5:
                sts.append(m.group(2).replace("\\\"", '"')[:4000])
        ev = trace["ev"]
        replay = {"property": self.prop, "source": label, "module": module, "trace": trace,
                  "events_explained": max(best, 0), "first_unexplained_event": ev[best] if 0 <= best < len(ev) else None,
                  "specification_states_there": sts}
        if rc != 0:
            replay["evaluation"] = text[-3000:]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump(replay, open(path, "w"), indent=1)
        self.violations.append(path)
        self.log("rejected: %s after %d of %d events; next: %s" %
                 (trace["id"], max(best, 0), len(ev), json.dumps(replay["first_unexplained_event"])[:800]))

    # ------------------------------------------------------------ evidence
    def finish(self, assumptions=(), exhaustive=False):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "evaluations": self.events,
            "rule": "states/transitions: TLC's exhaustive exploration of the specification; "
                    "evaluations: events of traces recorded from the real code and judged by TLC; "
                    "scripts: one per transition of the explored state graph",
            "model_checking": self.model_runs, "trace_validation": self.trace_runs,
            "samples": self.samples[:6],
        }
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        for v in self.violations[:3]:
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(v, VERIF)), flush=True)
        self.log("done: %d violations, %d traces accepted" % (len(self.violations), self.validated))
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def parallel(*fs):
    """Runs functions concurrently; returns their results, re-raises the first error."""
    res = [None] * len(fs)
    errs = []

    def go(k, f):
        try:
            res[k] = f()
        except BaseException as ex:  # noqa
            errs.append(ex)
    ts = [threading.Thread(target=go, args=(k, f)) for k, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res
