"""C24: the outer optimisation loop, replayed with scripted inner results and recorded on real runs."""
import random, itertools, re
from collections import defaultdict
import scipy.optimize as _so
import numpy as np
from vlib import *
from netio import *

_real = _so.minimize
HOOK = [None]


def _dispatch(*a, **k):
    return HOOK[0](*a, **k) if HOOK[0] else _real(*a, **k)


_so.minimize = _dispatch
import pipe
from pipe import O, P, World, build_world, inputs, extended, strategies_of, assign_event, loading, citylinks


class Script(Exception):
    pass


def install():
    m = O()
    if getattr(m, "minimize", None) is _real:
        m.minimize = _dispatch


def arg(a, k, i, name):
    return a[i] if len(a) > i else k.get(name)


def res_of(r):
    return {"x": [num(float(v)) for v in r.x], "success": bool(r.success), "status": num(int(r.status)), "message": str(r.message),
            "cv": num(float(r.constr_violation)), "fun": num(float(r.fun))}


NONE = {"none": True}


def tup(t):
    if t is None:
        return dict(NONE)
    x, s, st, m, cv, fun = t
    return {"x": [num(float(v)) for v in x], "success": bool(s), "status": num(int(st)), "message": str(m), "cv": num(float(cv)), "fun": num(float(fun))}


def cons(c):
    c = list(c) if isinstance(c, (list, tuple)) else [c]
    return [x for x in c if hasattr(x, "fun") and hasattr(x, "ub")]


def mk(r):
    cv = float(r["cv"])
    return _so.OptimizeResult(x=np.array([float(v) for v in r["x"]]), success=bool(r["success"]), status=int(r["status"]), message=r.get("message", "m"),
                              constr_violation=cv, fun=float(r["fun"]), nit=1)


class Recorder:
    """stands for the inner optimiser: scripted or real; records how it is called"""

    def __init__(self, ev, script=None, w=None, f0=None, probes=None):
        self.ev, self.script, self.w, self.probes = ev, script, w, probes
        self.f = f0
        self.n = 0

    def __call__(self, *a, **k):
        fun, x0 = arg(a, k, 0, "fun"), arg(a, k, 1, "x0")
        b, cs = k.get("bounds"), cons(k.get("constraints", ()))
        n = len(x0)
        if self.probes:
            self.probe(fun, cs)
        if self.script is None:
            r = _real(*a, **k)
        else:
            r = mk(self.script[min(self.n, len(self.script) - 1)])
        self.n += 1
        e = {"op": "inner", "x0": [num(float(v)) for v in x0], "lb": [num(float(v)) for v in np.broadcast_to(b.lb, (n,))] if b is not None else ["none"],
             "ub": [num(float(v)) for v in np.broadcast_to(b.ub, (n,))] if b is not None else ["none"], "cub": [], "clb": [], "r": res_of(r)}
        for c in cs:
            e["cub"] += [num(float(v)) for v in np.atleast_1d(c.ub)]
            e["clb"] += [num(float(v)) for v in np.atleast_1d(c.lb)]
        if not cs:
            e["cub"], e["clb"] = ["none"], ["none"]
        self.ev.append(e)
        self.f = [float(v) for v in r.x]
        return r

    def probe(self, fun, cs):
        w = self.w
        f = w.fdict(self.f)
        hook, HOOK[0] = HOOK[0], None
        try:
            o, op = call(O().Optimizer, w.g, w.dem, w.pax, w.net, f)
            if o != "ok":
                return
            self.ev += [inputs(w, f), extended(w, op.extended_graph_obj)] + strategies_of(w, op) + [assign_event(w, op)]
            for vec in self.probes:
                vec = w.fvec(vec)
                fv = w.fdict(vec)
                e, zvl = loading(w, op, fv)
                self.ev.append(e)
                val = [float(v) for c in cs for v in c.fun(np.array(vec))]
                self.ev.append({"op": "probe", "vrc": num(float(fun(np.array(vec)))), "val": [num(v) for v in val],
                                "f": {r: num(fv[r]) for r in w.rids}, "links": citylinks(w), "tags": [w.tags.tag(m) for m in w.net.get_modes()]})
        finally:
            HOOK[0] = hook


def summary(text, w):
    val = {"success": "", "status": "", "message": "", "cv": "", "fun": "", "f": {}}
    lab = {"Success": "success", "Status": "status", "Message": "message", "Max constrain violation": "cv", "VRC": "fun"}
    for l in text.split("\n"):
        if ":" in l:
            a, b = l.strip().split(":", 1) if l.split(":")[0] in lab else l.strip().rsplit(":", 1)
            a, b = a.strip(), b.strip()
            if a in lab:
                val[lab[a]] = b
            elif a in w.rids:
                val["f"][a] = b
    return val


def optimise(ev, w, tol, limit, f0, script=None, probes=None, direct=False):
    """one run of the outer loop -> events"""
    install()
    vec0 = [r.mode.fini for r in w.net.get_routes()]
    ev.append({"op": "start", "fini": [num(x) for x in vec0], "tol": num(tol), "limit": "None" if limit is None else num(limit),
               "dyadic": script is not None and all(float(x) * 1024 == int(float(x) * 1024) for x in [*vec0, *[y for r in script for y in r["x"]]])})
    start = [f0[r] for r in w.rids] if f0 is not None else [float(x) for x in vec0]
    HOOK[0] = Recorder(ev, script, w, start, probes)
    Opt = O().Optimizer
    res, obj = None, None
    try:
        if direct:
            out, res = call(Opt.external_optimization, w.g, w.dem, w.pax, w.net, f0, tol, limit)
        else:
            out, obj = call(Opt.network_optimization, w.g, w.dem, w.pax, w.net, f0, tol, limit)
            if out == "ok":
                out, res = call(obj.get_optimization_value)
    finally:
        HOOK[0] = None
    e = {"op": "end", "outcome": out, "res": tup(res) if out == "ok" else dict(NONE)}
    if out == "ok" and res is None:
        e["outcome"] = "nothing"
    ev.append(e)
    if obj is not None and res is not None:
        o, t = call(obj.string_network_optimization, res)
        f = w.fdict(list(res[0]))
        ev.append({"op": "summary", "val": summary(t, w) if o == "ok" else {"success": "", "status": "", "message": o, "cv": "", "fun": "", "f": {}},
                   "res": dict(tup(res), successtext=str(res[1])), "f": {r: num(float(f[r])) for r in w.rids}})
    return obj


def run_scripts(d):
    """replay of emitted runs of the model"""
    ev = []
    for i, t in enumerate(d["runs"]):
        cfg = t["cfg"]
        w = _two()
        lim = None if cfg["limit"] == "None" else int(cfg["limit"])
        run = [dict(r, message="m%d" % k) for k, r in enumerate(t["run"])]
        f0 = w.fdict([5.0, 6.0]) if i % 3 == 0 else None
        optimise(ev, w, float(cfg["tol"]), lim, f0, run, None, direct=bool(i % 2))
    return ev


def _two():
    g = G().Graph.build_from_parameters(1, 10, 0.5, 2)
    es = [(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()]
    a, b = [e for e in es if (e[1], e[0]) in es][0]
    c = [e for e in es if (e[1], e[0]) in es and set(e) != {a, b}][0]
    d = {"q": {"n": 1, "l": 10, "g": 0.5, "p": 2}, "dem": [], "modes": [dict(fini=8), dict(fini=4)],
         "routes": [{"m": 0, "id": "a", "seq": [[a, b], [b, a], [a, b], [b, a]]}, {"m": 1, "id": "b", "seq": [[c[0], c[1]], [c[1], c[0]], [c[0], c[1]], [c[1], c[0]]]}]}
    return World(d)


# ------------------------------------------------------------------ single results and selections
VALS = {"x": ["8", "0", "-0.0625", "-0.1", "-0.100001", "-2", "0.02"], "cv": ["0", "0.0009", "0.001", "-0.0011", "0.1", "0.1001", "-0.2", "-0.0009"],
        "status": ["0", "1", "2", "3", "-1"]}


def rnd_res(rng):
    if rng.random() < 0.55:  # an acceptable result
        return {"x": [rng.choice(["8", "0", "0.02", "0.05", "3.25", "0.0416"] + (["-0.0000001", "-0.0000000001"] if rng.random() < 0.15 else [])) for _ in range(rng.randint(1, 3))], "success": rng.random() < 0.5, "status": rng.choice(["1", "2"]),
                "message": "m", "cv": rng.choice(["0", "0", "0.0009", "-0.0009"]), "fun": rng.choice(["5", "5.5", "5.02", "5.0004", "-3", "-2.99", "100"])}
    return {"x": [rng.choice(VALS["x"][:3] * 3 + VALS["x"]) for _ in range(rng.randint(1, 3))], "success": rng.random() < 0.5, "status": rng.choice(VALS["status"] + ["1", "2"]),
            "message": "m", "cv": rng.choice(VALS["cv"] + ["0"] * 4), "fun": rng.choice(["5", "5.5", "5.02", "5.0004", "-3", "100"])}


def rnd_list(rng):
    run = [rnd_res(rng) for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.5:  # costs close to each other, around any level
        b = rng.choice([100, 5, 2500.5, 0.25, -40])
        for r in run:
            r["fun"] = repr(b + abs(b) * rng.choice([0, 1e-5, -1e-5, 4e-4, 4e-3, -4e-3, 0.05, -0.05, 0.3]))
    return run


def real(r):
    return ([float(v) for v in r["x"]], r["success"], int(r["status"]), r["message"], float(r["cv"]), float(r["fun"]))


def run_results(d):
    ev = []
    Opt = O().Optimizer
    for r in d["single"]:
        o, v = call(Opt.status_optimization, None if "none" in r else real(r))
        ev.append({"op": "status", "res": r, "outcome": o if o != "ok" or v is True else "not_true"})
    for run in d["lists"]:
        o, v = call(Opt.get_better_result, [([9.0], "initialization", -1, "initialization", -1, -1)] + [real(r) for r in run])
        ev.append({"op": "select", "run": run, "outcome": o, "res": tup(v) if o == "ok" else dict(NONE)})
    return ev


# ------------------------------------------------------------------ real networks
def run_sessions(d):
    ev = []
    w = build_world(d, ev)
    Opt = O().Optimizer
    f0 = w.fdict(w.fvec(d["f"])) if d.get("f") else None
    o, op = call(Opt, w.g, w.dem, w.pax, w.net, f0)
    if o != "ok":
        return ev
    for m in ("get_network_results", "get_overall_results", "string_network_results", "string_overall_results"):
        o, _ = call(getattr(op, m))
        ev.append({"op": "noresult", "outcome": o})
    script = None
    if d.get("script"):
        script = [dict(s, x=w.fvec(s["x"])) for s in d["script"]]
    optimise(ev, w, d["tol"], d["limit"], f0, script, d.get("probes"))
    return ev


def gen_session(rng, real=False):
    def make():
        d = pipe.gen_eval(rng, [], nmax=2 if real else 3, zero=0)
        return None if real and len(d["routes"]) > 3 else d
    d = until(make, "a transport system with demand")
    d["tol"] = rng.choice([0.01, 0.5, 5])
    d["limit"] = rng.choice([0, 1, 2, 3])
    if real:
        d["limit"] = rng.choice([1, 2])
        if rng.random() < 0.4:
            d["probes"] = [pipe.gen_f(rng, 0)]
    else:
        d["script"] = [dict(x=pipe.gen_f(rng, 0), success=True, status=rng.choice([1, 2, 1, 0]), message="step %d" % k, cv=rng.choice([0, 0, 0.0005, 0.2]),
                            fun=rng.choice([100, 90, 120.5])) for k in range(4)]
        for r in d["script"]:       # about one vehicle per day
            if rng.random() < 0.5:
                r["x"][rng.randrange(len(r["x"]))] = rng.choice([0.04166, 0.0417, 0.0416, 0.04, 0.0425, 1e-9])
        d["probes"] = [pipe.gen_f(rng, 0), pipe.gen_f(rng, 0)]
    return d


def C24(c):
    t = c.thorough()
    runs = c.add_model("MOptim", env={"ALPHABET": "small"}, timeout=600)
    if t:
        c.add_model("MOptim", "MOptim2", env={"ALPHABET": "full"}, timeout=600)
    if not t:
        short = [r for r in runs if len(r["run"]) < 3]
        runs = short + c.rng.sample([r for r in runs if len(r["run"]) == 3], min(1500, len(runs)))
    c.extra["runs_replayed_on_impl"] = len(runs)
    desc = [{"runs": runs[i:i + 60]} for i in range(0, len(runs), 60)]
    c.judge("TC24", run_scripts, desc, limit=120)
    grid = [dict(NONE)] + [{"x": [x, "8"], "success": True, "status": s, "message": "m", "cv": v, "fun": "5"} for x in VALS["x"] for v in VALS["cv"] for s in VALS["status"]]
    desc = [{"single": grid[i:i + 60], "lists": [rnd_list(c.rng) for _ in range(60)]} for i in range(0, len(grid), 60)]
    c.judge("TC24", run_results, desc)
    c.judge("TC24", run_sessions, [gen_session(c.rng) for _ in range(900 if t else 100)], limit=120)
    c.judge("TC24", run_sessions, [gen_session(c.rng, True) for _ in range(240 if t else 24)], limit=120)
