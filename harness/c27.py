"""C27: sessions over several worlds - evaluations are pure and independent."""
import copy, random, hashlib, json, os, tempfile
import c24
from vlib import *
from netio import *
import walks, pipe
from pipe import *


def flat(x, pre="", out=None):
    """nested JSON -> {path: string}; zeros and empty tables are left out"""
    if out is None:
        out = {}
    if isinstance(x, dict):
        for k in x:
            flat(x[k], pre + "/" + str(k), out)
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            flat(y, pre + "/%d" % i, out)
    else:
        s = num(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else str(x)
        try:
            if float(s) == 0:
                return out
        except ValueError:
            pass
        out[pre] = s
    return out


def answer(x, ref=None):
    v = flat(x)
    h = hashlib.sha1(json.dumps(sorted(v.items())).encode()).hexdigest()
    a = {"h": h}
    if ref is None or ref["h"] != h:
        a["v"] = v or {"": ""}
    return a


def scribble(x):
    """the caller spoils an answer it was handed"""
    import numpy as np
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            if isinstance(x[k], (int, float)):
                x[k] = -7
        if x:
            del x[list(x)[-1]]
    elif isinstance(x, np.ndarray):
        x[:] = -7
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)
        if isinstance(x, list):
            x.reverse()
            if x:
                x.pop()
    elif isinstance(x, N().Route):
        for l in (x.nodes_sequence_i, x.nodes_sequence_r, x.stops_sequence_i, x.stops_sequence_r):
            scribble(l)
    elif isinstance(x, P().ExtendedGraph):
        scribble(x.get_extended_graph_edges())
    elif isinstance(x, O().Optimizer):
        scribble(x.better_res)
        scribble(x.f_opt)


class Live:
    """a world with its versions"""

    def __init__(self, d):
        self.d, self.v = d, 0
        self.w = World(d)
        self.opt = self.eg = None
        self.ids = sorted(int(n.id) for n in self.w.g.get_nodes())
        x = d["edit"]
        self.extra = N().Route("zz", self.w.modes[x["m"]], *[j(q) for q in x["seq"]])

    def edit(self):
        w, x = self.w, self.d["edit"]
        self.v = 1 - self.v
        a, b, v = x["vij"]
        a, b = self.ids[a], self.ids[b]
        m = self.w.modes[x["m"]]
        if self.v:
            self.keep = (w.dem.get_matrix()[a][b], w.pax.pt, m.fini, m.tat)
            if x.get("move"):  # a node is moved, and back
                i, dx = x["move"]
                i = i % len(w.g.get_nodes())
                n = w.g.get_nodes()[i]
                self.moved = (n, n.x, n.y)
                n.x, n.y = n.x + dx, n.y - dx / 2
            w.dem.change_vij(a, b, v)
            w.net.add_route(self.extra)
            w.pax.pt, m.fini, m.tat = x["pt"], x["fini"], x["tat"]
        else:
            w.dem.change_vij(a, b, self.keep[0])
            w.net.remove_route("zz")
            if x.get("move"):
                n, n.x, n.y = self.moved
            w.pax.pt, m.fini, m.tat = self.keep[1:]
        w.rids = [r.id for r in w.net.get_routes()]
        self.opt = None

    def optimizer(self):
        if self.opt is None:
            self.opt = O().Optimizer(self.w.g, self.w.dem, self.w.pax, self.w.net, None)
            self.opt.better_res = (self.w.fvec(self.d["fopt"]), True, 1, "set", 0.0, 1.0)
        return self.opt

    def inputs(self):
        w = self.w
        m = w.dem.get_matrix()
        c = proj_city(w.g)
        return {"city": c, "demand": {str(o): {str(t): num(v) for t, v in m[o].items()} for o in m}, "total": num(round(w.dem.get_total_trips(), 6)),
                "in": inputs(w, w.finis())["in"], "modes": [proj_mode(x, w.tags) for x in w.net.get_modes()], "f": self.d["f"]}

    # --------------------------------------------------------- the queries: -> (raw answer, projection of it)
    def q_city(self):
        return None, lambda r: proj_city(self.w.g)

    def q_distances(self):
        r = self.w.g.get_edges_distance()
        return r, lambda r: {str(a): {str(b): num(v) for b, v in r[a].items()} for a in r}

    def q_demand(self):
        m = self.w.dem.get_matrix()
        return None, lambda r: [{str(o): {str(t): num(v) for t, v in m[o].items()} for o in m}, num(round(self.w.dem.get_total_trips(), 6))]

    def q_routes(self):
        rs = self.w.net.get_routes()
        return rs, lambda r: [proj_route(x, self.w.tags) for x in self.w.net.get_routes()]

    def q_families(self):
        res = []
        for f, s, e in FAMILIES:
            o, rs = call(family, self.w.net, f, self.w.modes[0], 1, bool(s), bool(e))
            res.append((o, rs))
        return res, lambda r: [[o, [proj_route(x, self.w.tags) for x in rs] if o == "ok" else []] for o, rs in r]

    def q_files(self):
        res = []
        for fn in (self.w.g.graph_to_pajek_file, self.w.dem.matrix_to_file, self.w.net.routes_to_file):
            if fn is None:
                continue
            p = tempfile.mktemp(dir="/tmp", prefix="vp-c27-")
            o, _ = call(fn, p)
            res.append([o, open(p).read() if os.path.exists(p) else ""])
            if os.path.exists(p):
                os.unlink(p)
        return res, lambda r: r

    def q_extended(self):
        w = self.w
        eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, w.fdict(w.fvec(self.d["f"])))
        self.eg = eg
        return eg, lambda r: extended(w, r)

    def q_links(self):
        # the extended network of an evaluation in use
        eg = self.optimizer().extended_graph_obj
        return eg, lambda r: extended(self.w, r)

    def q_validate(self):
        if self.eg is not None:  # an extended network handed out earlier is used again
            h = P().Hyperpath(self.eg, self.w.pax)
            call(h.network_validator, self.w.dem.get_matrix())
            call(h.get_all_hyperpaths, self.w.dem.get_matrix())
        h = self.optimizer().hyperpath_obj
        r = [call(h.network_validator, self.w.dem.get_matrix()), call(h.network_validator, {self.ids[0]: {self.ids[1]: 3.0}})]
        return r, lambda r: [[o, v] for o, v in r]

    def q_strategies(self):
        h = self.optimizer().hyperpath_obj
        w, eg = self.w, self.optimizer().extended_graph_obj
        o, r = call(h.get_all_hyperpaths, w.dem.get_matrix())

        def proj(r):
            if r is None:
                return o
            hp, lab, suc, fr, V = r
            return [strat_event(w, eg, a, b, suc[a][b], lab[a][b], fr[a][b]) for a in hp for b in hp[a]] + \
                   [[hp_paths(w, hp[a][b][s]) for s in hp[a][b]] for a in hp for b in hp[a]]
        return r, proj

    def tables(self):
        opt = self.optimizer()
        return P().Assignment.get_alighting_and_boarding(opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, self.w.fdict(self.w.fvec(self.d["f"])))

    def q_loads(self):
        return self.tables(), lambda r: [by_line(t, self.w) for t in r]

    def q_costs(self):
        w, opt, f = self.w, self.optimizer(), self.w.fdict(self.w.fvec(self.d["f"]))
        z, v, l = self.tables()
        k = opt.get_k(l)
        r = (opt.operators_cost(z, v, f, k), opt.infrastructure_cost(f), opt.user_cost(opt.hyperpaths, opt.Vij, opt.assignment, opt.successors, opt.extended_graph_obj, f, z, v))
        return r, lambda r: [num(x) for x in r]

    def q_constraints(self):
        r = self.optimizer().get_constrains(self.w.fvec(self.d["f"]))
        return r, lambda r: [num(x) for x in r]

    def q_objective(self):
        r = (self.optimizer().VRC(self.w.fvec(self.d["f"])), list(self.optimizer().f_opt), dict(self.optimizer().f))
        return r, lambda r: [num(r[0]), [num(x) for x in r[1]], {k: num(x) for k, x in r[2].items()}]

    def q_reports(self):
        o, r = call(self.optimizer().get_network_results)
        return r, lambda r: row_event(r) if r is not None else o

    def q_overall(self):
        o, r = call(self.optimizer().get_overall_results)
        return r, lambda r: overall_event(self.w, "ok", r)["res"] if r is not None else o

    def q_optimise(self):
        c24.install()
        w = self.w
        n = [0]

        def inner(fun, x0, *a, **k):
            n[0] += 1
            x = [1.0 + v * (0.5 + 0.25 / n[0]) for v in x0]
            return c24.mk({"x": x, "success": True, "status": 1, "message": "m", "cv": 0, "fun": float(fun(x))})
        c24.HOOK[0] = inner
        try:
            o, op = call(O().Optimizer.network_optimization, w.g, w.dem, w.pax, w.net, w.fdict(w.fvec(self.d["f"])), 0.01, 2)
        finally:
            c24.HOOK[0] = None
        return op, lambda r: [o, [num(float(x)) for x in r.better_res[0]] + [num(r.better_res[5])] if r is not None else []]


QUERIES = [m[2:] for m in dir(Live) if m.startswith("q_")]


def ask(lv, q):
    o, r = call(getattr(lv, "q_" + q))
    if o != "ok":
        return None, lambda x: o
    return r


def run_reference(d):
    """one query on freshly built inputs"""
    lv = Live(d["world"])
    if d["v"]:
        lv.edit()
    if d["q"] == "inputs":
        return [{"ans": answer(lv.inputs())}]
    raw, proj = ask(lv, d["q"])
    return [{"ans": answer(proj(raw))}]


def run_session(d):
    ev, W = [], {k: Live(x) for k, x in d["worlds"].items()}
    ref = {}
    for w, v, q, a in d["refs"]:
        if q == "inputs":
            ev.append({"op": "given", "w": w, "v": str(v), "ans": a})
        else:
            ev.append({"op": "reference", "w": w, "v": str(v), "q": q, "ans": a})
        ref[w, v, q] = a
    held = []
    for w, q, kind in d["walk"]:
        lv = W[w]
        if kind == "scribble":
            if held and held[-1][4] == (w, q):
                lv.eg = None
                scribble(held.pop()[1])
            ev.append({"op": "scribble", "w": w, "q": q})
            continue
        if kind == "edit":
            lv.edit()
            ev.append({"op": "edit", "w": w, "v": str(lv.v)})
            continue
        raw, proj = ask(lv, q)
        ans = answer(proj(raw), ref.get((w, lv.v, q)))
        if raw is not None:
            held.append((q, raw, proj, answer(proj(raw)), (w, q)))
        ev.append({"op": "query", "w": w, "q": q, "ans": ans,
                   "inputs": [{"w": x, "ans": answer(W[x].inputs(), ref.get((x, W[x].v, "inputs")))} for x in W]})
    for q, raw, proj, before, _ in held[:40]:
        if q in ("city", "demand", "routes"):
            continue
        after = answer(proj(raw), before)
        ev.append({"op": "held", "q": q, "before": before if "v" in after else {"h": before["h"]}, "after": after})
    return ev


def gen_world(rng):
    def make():
        d = pipe.gen_eval(rng, [], nmax=3, zero=0)
        d.pop("f", None)
        if rng.random() < 0.5:
            k, v = rng.choice([("fini", 0.02), ("fini", 0.01), ("tat", 90), ("v", 0.8)])
            d["modes"][rng.randrange(len(d["modes"]))][k] = v
        d["f"] = [float(x) for x in pipe.gen_f(rng, 0)]
        d["fopt"] = [float(x) for x in pipe.gen_f(rng, 0.2)]
        w = World(d)
        ids = sorted(int(n.id) for n in w.g.get_nodes())
        more = [q for q in sorted(reach_pairs(w, w.finis())) if [ids.index(q[0]), ids.index(q[1])] not in [x[:2] for x in d["dem"]]]
        for (a, b), v in zip(rng.sample(more, min(2, len(more))), (0.0004, 0.6)):
            d["dem"].append([ids.index(a), ids.index(b), v])
        w = World(d)
        seq = gen_custom(rng, w.g)
        if not seq or any(len(q) < 2 for q in seq) or len(w.rids) > 8:
            return None
        dm = d["dem"][0]
        d["edit"] = {"m": rng.randrange(len(d["modes"])), "seq": seq, "vij": [dm[0], dm[1], 77.5], "pt": 3.0, "fini": 17.0, "tat": 2.5,
                     "move": [rng.randrange(20), rng.choice([0.5, -1.25])] if rng.random() < 0.6 else None}
        ids = sorted(int(n.id) for n in w.g.get_nodes())
        try:
            lv = Live(d)
            lv.optimizer(); lv.edit(); lv.optimizer()
        except Exception:
            return None
        return d
    return until(make, "a transport system to hold a session with", seconds=240)


def sibling(rng, d):
    """another system with the same ids and names, in which some of the figures differ"""
    e = copy.deepcopy(d)
    what = set(rng.sample(["city", "modes", "demand", "passenger", "frequencies"], rng.choice([1, 2, 3])))
    if "city" in what:
        k = rng.choice([1.5, 2, 0.5])
        if "q" in e:
            e["q"]["l"] *= k
            e["q"]["p"] *= 1.5
        else:
            ls = e["text"].split("\n")
            for i, l in enumerate(ls):
                q = l.split()
                if len(q) == 7:
                    ls[i] = " ".join(q[:2] + [repr(float(q[2]) * k), repr(float(q[3]) * k)] + q[4:])
            e["text"] = "\n".join(ls)
    if "modes" in what:
        for m in e["modes"]:
            m.update(v=m["v"] * 0.8, tat=m["tat"] + 1, t=m["t"] + 1.5, co=m["co"] + 2, c2=m["c2"] + 5, kmax=m["kmax"] + 9, theta=1 if m["theta"] < 0.9 else 0.5, bya=1 - m["bya"])
    if "demand" in what:
        e["dem"] = [[a, b, v * 1.75] for a, b, v in e["dem"]]
    if "passenger" in what:
        e["pax"] = pipe.gen_pax(rng) or dict(va=2.5, pv=1.5, pw=3, pa=4, pt=9, spv=1, spw=2, spa=5, spt=1)
    if "frequencies" in what:
        e["f"], e["fopt"] = [x * 1.5 for x in e["f"]], [x * 0.5 for x in e["fopt"]]
    try:
        lv = Live(e)
        lv.optimizer(); lv.edit(); lv.optimizer()
    except Exception:
        return None
    return e


def C27(c):
    t = c.thorough()
    lines = c.add_model("MSession")
    wl, n = walks.cover(lines, [{"a": 0, "b": 0}, ["", "", ""]], 90, c.rng)
    k = 6
    for rep in range(12 if t else 1):
        pairs = [{"a": gen_world(c.rng), "b": gen_world(c.rng)} for _ in range(k)]
        for p in pairs[:4]:
            p["b"] = until(lambda: sibling(c.rng, p["a"]), "a system that differs in figures only")
        if rep % 2:
            pairs[0]["b"] = dict(pairs[0]["a"])  # two worlds with the same content
        keys = [(i, w, v, q) for i in range(k) for w in "ab" for v in (0, 1) for q in QUERIES + ["inputs"]]
        refs = pmap(run_reference, [{"world": pairs[i][w], "v": v, "q": q} for i, w, v, q in keys], fresh=True)
        R = {}
        for (i, w, v, q), r in zip(keys, refs):
            R.setdefault(i, []).append([w, v, q, r[0].get("ans", {"h": "timeout"})])
        descs = [{"worlds": pairs[i % k], "refs": R[i % k], "walk": [(a["w"], a["q"], a["k"]) for a, _ in w]} for i, w in enumerate(wl)]
        c.judge("TC27", run_session, descs, limit=200)
    c.extra["transitions_replayed_on_impl"] = n
