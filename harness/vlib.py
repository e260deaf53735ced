"""Common machinery: recording runs of the real code, judging them with TLC, evidence."""
import json, math, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLADIR = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLADIR, TLADIR)
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)


class MachineryError(Exception):
    pass


class ScenarioError(Exception):
    """valid inputs on which the real code cannot even be set up: no property can be established on it"""


# ---------------------------------------------------------------- encoding
def num(x):
    """a real number -> decimal string understood by Num.tla"""
    if x is None:
        return "None"
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, str):
        return "str:" + x
    try:
        f = float(x)
    except Exception:
        return "bad:" + type(x).__name__
    if math.isnan(f):
        return "nan"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    if isinstance(x, int):
        return str(x)
    return repr(f)


def nums(xs):
    return "None" if xs is None else [num(x) for x in xs]


def sid(x):
    return str(x)


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout()


def call(fn, *a, **k):
    """-> (outcome, value): outcome 'ok' or the class name of the exception"""
    try:
        return "ok", fn(*a, **k)
    except Timeout:
        raise
    except RecursionError:
        return "RecursionError", None
    except Exception as e:
        return type(e).__name__, None


# ---------------------------------------------------------------- scratch
class Scratch:
    def __init__(self, prop):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=base)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def num_class(dst):
    """compile the module override into dst (cached by source hash under .work/classes)"""
    src = os.path.join(SPEC, "Num.java")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    cache = os.path.join(VERIF, ".work", "classes-" + h)
    if not os.path.exists(os.path.join(cache, "Num.class")):
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="javac-", dir=os.path.join(VERIF, ".work"))
        r = subprocess.run(["javac", "-cp", CP, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    shutil.copy(os.path.join(cache, "Num.class"), dst)


def spec_copy(dst):
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), dst)
    num_class(dst)


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(specdir, module, cfg, env=None, workers=1, heap="3g", timeout=800, args=(), meta=None, coverage=False):
    """run TLC; -> (returncode, stdout)"""
    meta = meta or tempfile.mkdtemp(prefix="meta-", dir=specdir)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-nowarning", "-noGenerateSpecTE", "-deadlock"] + list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=specdir, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return -9, o.decode() if isinstance(o, bytes) else o
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tagged(out, tag):
    """JSON payloads of lines printed by PrintT("@tag " \\o ToJson(..))"""
    res = []
    for line in out.splitlines():
        if line.startswith('"@%s ' % tag) and line.endswith('"'):
            body = line[len(tag) + 3:-1]
            try:
                res.append(json.loads(body))
            except ValueError:
                res.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
    return res


# ---------------------------------------------------------------- judging recorded runs
class Judge:
    """code -> spec: validate recorded scenarios (lists of events) with a trace module"""

    def __init__(self, scratch, module):
        self.scratch, self.module = scratch, module
        self.specdir = scratch.path("spec")
        if not os.path.isdir(self.specdir):
            spec_copy(self.specdir)
        self.states = self.transitions = self.events = self.traces = 0
        self.seen = {}

    def _run(self, idx, scen, timeout):
        p = self.scratch.path("trace-%s-%d-%d.json" % (self.module, os.getpid(), idx))
        with open(p, "w") as f:
            json.dump([s for _, s in scen], f)
        rc, out = tlc(self.specdir, self.module + ".tla", self.module + ".cfg", {"TRACE": p},
                      timeout=timeout, heap="3g")
        done = tagged(out, "D")
        fails = [(scen[v["s"] - 1][0], v["l"], list(v["f"])) for v in tagged(out, "V")]
        m = STATS.search(out)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        # TLC may stop on an evaluation error: the event is not of the shape the specification knows
        ok = rc == 0 and bool(done)
        os.unlink(p)
        return ok, fails, st, out, done

    def run(self, scenarios, timeout=700):
        """-> list of (scenario index, event number, [clauses])"""
        if not scenarios:
            return []
        scen = [(i, s) for i, s in enumerate(scenarios)]
        self.traces += len(scen)
        self.events += sum(len(s) for s in scenarios)
        size = [len(json.dumps(s)) + 1 for s in scenarios]
        k = min(NCPU, max(1, min(len(scen), 1 + sum(size) // 20000)))
        chunks = [[] for _ in range(k)]
        load = [0] * k
        for i in sorted(range(len(scen)), key=lambda i: -size[i]):
            j = load.index(min(load))
            chunks[j].append(scen[i]); load[j] += size[i]
        fails = []
        deadline = time.time() + timeout
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda t: self._run(t[0], t[1], max(30, deadline - time.time())), enumerate(chunks)))
        retry = []
        for ch, (ok, fl, st, out, done) in zip(chunks, res):
            self.transitions += st[0]; self.states += st[1]
            if ok:
                fails += fl
            else:
                retry.append((ch, fl, out))
        for ch, fl, out in retry:
            # isolate the scenario(s) TLC could not evaluate
            if not re.search(r"Error:|evaluat|Attempted|overflow", out):
                raise MachineryError("TLC did not finish on %s:\n%s" % (self.module, out[-3000:]))
            if "Parsing or semantic analysis failed" in out or "was not found" in out or "*** Errors" in out:
                raise MachineryError(out[-3000:])
            with ThreadPoolExecutor(NCPU) as ex:
                one = list(ex.map(lambda t: self._run(100 + t[0], [t[1]], max(30, deadline - time.time())), enumerate(ch[:24])))
            bad = 0
            for c, (ok, fl1, st, out1, done1) in zip(ch, one):
                fails += fl1
                if not ok:
                    if "Error:" not in out1:
                        raise MachineryError("TLC: " + out1[-3000:])
                    bad += 1
                    fails.append((c[0], 0, ["not_of_the_specified_shape: " + " ".join(
                        [l for l in out1.splitlines() if l.startswith("Error:") or "Attempted" in l][:3])[:400]]))
            if not bad and len(ch) <= 24:
                raise MachineryError("TLC error not reproducible:\n" + out[-3000:])
        return fails


def explore(scratch, module, cfg=None, workers=4, timeout=700, heap="8g", args=(), env=None):
    """spec -> code: exhaustive TLC run; -> (states, transitions, [payload of @T lines], output)"""
    specdir = scratch.path("spec")
    if not os.path.isdir(specdir):
        spec_copy(specdir)
    rc, out = tlc(specdir, module + ".tla", (cfg or module) + ".cfg", env, workers=workers, heap=heap,
                  timeout=timeout, args=args)
    m = STATS.search(out)
    if rc != 0 or not m:
        raise MachineryError("TLC on the model %s failed (rc %s):\n%s" % (module, rc, out[-4000:]))
    return int(m.group(2)), int(m.group(1)), tagged(out, "T"), out


# ---------------------------------------------------------------- running drivers in parallel
def _work(args):
    fn, desc, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return fn(desc)
    except Timeout:
        return [{"op": "timeout"}]
    except MachineryError:
        raise
    except Exception:
        return [{"op": "unrecordable", "why": traceback.format_exc()[-1500:]}]
    finally:
        signal.alarm(0)


class bounded:
    """the code under test, called by a generator, has to return within some seconds"""

    def __init__(self, seconds, what):
        self.seconds, self.what = seconds, what

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        self.outer, self.t0 = signal.alarm(self.seconds), time.time()

    def __exit__(self, t, v, b):
        signal.alarm(max(1, int(self.outer - time.time() + self.t0)) if self.outer else 0)
        if t is Timeout:
            raise ScenarioError("%s: no answer within %d s" % (self.what, self.seconds))


def until(make, what, tries=300, seconds=90):
    """the first scenario make() does not turn down (None)"""
    with bounded(seconds, what):
        for _ in range(tries):
            d = make()
            if d is not None:
                return d
    raise ScenarioError("%s: not one of %d valid inputs can be set up" % (what, tries))


def _quiet():
    import warnings
    warnings.filterwarnings("ignore")
    sys.stdout = open(os.devnull, "w")


def pmap(fn, descs, limit=60, serial=False, fresh=False):
    """run fn(desc) -> events for every desc in worker processes (fork)"""
    if serial or len(descs) < 3:
        old = sys.stdout
        try:
            _quiet()
            return [_work((fn, d, limit)) for d in descs]
        finally:
            sys.stdout = old
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    if fresh:  # one process per description
        with ctx.Pool(NCPU, initializer=_quiet, maxtasksperchild=1) as pool:
            return pool.map(_work, [(fn, d, limit) for d in descs], chunksize=1)
    with ctx.Pool(NCPU, initializer=_quiet) as pool:
        return pool.map(_work, [(fn, d, limit) for d in descs], chunksize=max(1, min(8, len(descs) // (NCPU * 4) or 1)))


# ---------------------------------------------------------------- verdicts
def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def short(x, n=1500):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


class Check:
    """one property's check"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.scratch = Scratch(prop)
        self.t0 = time.time()
        self.viol = []          # (clauses, desc, events, note)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.level = "model_checking"

    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget=780):
        return budget - (time.time() - self.t0)

    def judge(self, module, runner, descs, limit=60, samples=2, note=None, timeout=700):
        """run the real code on descs, validate with the trace module"""
        evs = pmap(runner, descs, limit)
        for d, e in zip(descs, evs):
            for x in e:
                if x.get("op") == "timeout":
                    self.viol.append((["the call did not return within %d s" % limit], d, e, module))
                if x.get("op") == "unrecordable":
                    self.viol.append((["the run cannot be recorded"], d, e, module))
        ok = [(d, e) for d, e in zip(descs, evs) if not any(x.get("op") in ("timeout", "unrecordable") for x in e)]
        j = Judge(self.scratch, module)
        fails = j.run([e for _, e in ok], timeout)
        for s, l, f in fails:
            self.viol.append((f, ok[s][0], ok[s][1][l - 1] if l else ok[s][1], module))
        self.states += j.states; self.transitions += j.transitions
        self.traces += j.traces; self.events += j.events
        for d, e in ok[:samples]:
            self.samples.append({"input": json.loads(json.dumps(d, default=str)) if len(json.dumps(d, default=str)) < 3000 else short(d), "events": len(e), "first_event": short(e[0], 700) if e else ""})
        return evs

    def add_model(self, module, cfg=None, **k):
        s, t, lines, out = explore(self.scratch, module, cfg, **k)
        self.states += s; self.transitions += t
        self.extra.setdefault("models", []).append({"module": module, "cfg": cfg or module, "distinct_states": s,
                                                     "states_generated": t, "emitted": len(lines)})
        return lines

    def finish(self):
        kf = [k for k in known().get("findings", []) if k["property"] == self.prop]
        shown, rest = set(), []
        for v in self.viol:
            m = None
            for k in kf:
                if all(any(re.search(p, c) for p in k["clauses"]) for c in v[0]) and re.search(k["input"], json.dumps(v[1], default=str)):
                    m = k
            if m:
                shown.add(m["what"])
            else:
                rest.append(v)
        for w in sorted(shown):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(rest)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.scratch.close()
        if rest:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s-%s.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump([{"property": self.prop, "clauses": c, "module": m, "input": d, "event": e} for c, d, e, m in rest[:20]],
                          f, indent=1, default=str)
            for c, d, e, m in rest[:5]:
                print("  failing clauses %s on input %s" % (c, short(d, 160)))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 0
