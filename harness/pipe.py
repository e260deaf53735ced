"""C13-C26: recorded evaluations of networks (extended network -> reports)."""
import random, itertools, os, re, ast, tempfile
from collections import defaultdict
from vlib import *
from netio import *
from c05 import text_cities


def O():
    from sidermit.optimization import optimizer
    return optimizer


def P():
    from sidermit.optimization import preoptimization
    return preoptimization


def OC():
    from sidermit import optimization
    return optimization


PAXK = ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt")


# ------------------------------------------------------------------ building the inputs of a scenario
class World:
    """the real objects of a scenario"""

    def __init__(self, d):
        from sidermit.city import demand
        from sidermit.publictransportsystem import passenger
        g = G().Graph
        self.g = g.build_from_content(d["text"]) if "text" in d else g.build_from_parameters(**kw(d["q"]))
        self.tags = Tags()
        self.modes = [mkmode((d.get("called") or ["mode0", "mode1"])[i], **m) for i, m in enumerate(d["modes"])]
        self.net = N().TransportNetwork(self.g)
        for m in self.modes:
            self.tags.tag(m)
            self.net.add_transport_mode(m)
        for r in d["routes"]:
            m = self.modes[r["m"]]
            if "fam" in r:
                rs = family(self.net, r["fam"], m, r.get("jump", 1), r.get("short", False), r.get("express", False))
                if "pick" in r:
                    rs = [rs[k % len(rs)] for k in sorted(set(k % len(rs) for k in r["pick"]))]
            else:
                ni, nr, si, sr = r["seq"]
                rs = [N().Route(r["id"], m, j(ni), j(nr), j(si), j(sr))]
            for x in rs:
                if x.id not in [y.id for y in self.net.get_routes()]:
                    self.net.add_route(x)
        for r in list(self.net.get_routes())[d.get("keep", 10 ** 6):]:
            self.net.remove_route(r.id)
        self.pax = passenger.Passenger(**d["pax"]) if d.get("pax") else passenger.Passenger.get_default_passenger()
        self.dem = demand.Demand(self.g)
        ids = sorted(int(n.id) for n in self.g.get_nodes())
        if "dempar" in d:
            self.dem = demand.Demand.build_from_parameters(self.g, *d["dempar"])
        for a, b, v in d.get("dem", []):
            a, b = ids[a % len(ids)], ids[b % len(ids)]
            if a != b:
                self.dem.change_vij(a, b, v)
        self.rids = [r.id for r in self.net.get_routes()]
        self.p = self.g.get_parameters()[3]

    def fvec(self, spec):
        """list of frequencies from a (cyclic) list of numbers"""
        return [spec[i % len(spec)] for i in range(len(self.rids))]

    def fdict(self, vec):
        f = defaultdict(float)
        for r, x in zip(self.rids, vec):
            f[r] = x
        return f

    def finis(self):
        return self.fdict([r.mode.fini for r in self.net.get_routes()])


def mode_attrs(m):
    return {k: num(getattr(m, k)) for k in ("bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini")}


def inputs(w, f):
    return {"op": "inputs", "in": {
        "nodes": [{"id": sid(n.id), "x": num(n.x), "y": num(n.y), "width": num(n.width)} for n in w.g.get_nodes()],
        "modes": {w.tags.tag(m): mode_attrs(m) for m in w.net.get_modes()},
        "routes": [proj_route(r, w.tags) for r in w.net.get_routes()],
        "f": {r: num(f[r]) for r in w.rids},
        "pax": {k: num(getattr(w.pax, k)) for k in PAXK}, "p": num(w.p)}}


def ekey(n, w):
    p = P()
    if isinstance(n, p.CityNode):
        return "c|%s" % n.graph_node.id
    if isinstance(n, p.StopNode):
        return "s|%s|%s" % (n.city_node.graph_node.id, w.tags.tag(n.mode))
    if isinstance(n, p.RouteNode):
        return "l|%s|%s|%s" % (n.route.id, n.direction, n.stop_node.city_node.graph_node.id)
    return "?%s" % type(n).__name__


def enode(n, w):
    p = P()
    if isinstance(n, p.CityNode):
        return {"k": ekey(n, w), "ty": "city", "n": sid(n.graph_node.id), "m": "", "r": "", "dir": ""}
    if isinstance(n, p.StopNode):
        return {"k": ekey(n, w), "ty": "stop", "n": sid(n.city_node.graph_node.id), "m": w.tags.tag(n.mode), "r": "", "dir": ""}
    return {"k": ekey(n, w), "ty": "line", "n": sid(n.stop_node.city_node.graph_node.id), "m": w.tags.tag(n.route.mode),
            "r": str(n.route.id), "dir": n.direction}


def enodes(eg):
    ns = eg.get_extended_graph_nodes()
    for c in ns:
        yield c
        for s in ns[c]:
            yield s
            for l in ns[c][s]:
                yield l


def extended(w, eg):
    return {"op": "extended", "nodes": [enode(n, w) for n in enodes(eg)],
            "edges": [{"a": ekey(e.nodei, w), "b": ekey(e.nodej, w), "ty": e.type.name, "t": num(e.t), "f": num(e.f)}
                      for e in eg.get_extended_graph_edges()]}


def strat_event(w, eg, o, d, suc, lab, fr, full=True):
    ns = list(enodes(eg))
    nonempty = {ekey(n, w): [[ekey(e.nodei, w), ekey(e.nodej, w)] for e in suc[n]] for n in list(suc) if n in ns and len(suc[n])}
    return {"op": "strategy", "o": sid(o.graph_node.id), "d": sid(d.graph_node.id), "outcome": "ok",
            "label": {ekey(n, w): num(lab[n]) for n in ns}, "suc": nonempty or {"": []},
            "freq": {ekey(n, w): num(fr[n]) for n in ns}}


def citynode(eg, nid):
    for c in eg.get_extended_graph_nodes():
        if str(c.graph_node.id) == str(nid):
            return c
    return None


def demand_list(m, positive=True):
    return [[sid(o), sid(d), num(v)] for o in m for d, v in m[o].items() if v != 0 or not positive]


def demand_pairs(w):
    m = w.dem.get_matrix()
    return [(int(o), int(d), v) for o in m for d, v in m[o].items() if v > 0]


BUILTIN = {n for n, x in vars(__import__("builtins")).items() if isinstance(x, type) and issubclass(x, Exception)}


def by_line(t, w):
    """dic[rid][dir][stop] -> key of the line node"""
    return {"l|%s|%s|%s" % (r, dr, s.city_node.graph_node.id): num(x) for r in t for dr in t[r] for s, x in t[r][dr].items()} or {"": "0"}


def strategies_of(w, opt):
    """strategy events of the pairs of an Optimizer"""
    eg = opt.extended_graph_obj
    ev = []
    for o in opt.hyperpaths:
        for d in opt.hyperpaths[o]:
            ev.append(strat_event(w, eg, o, d, opt.successors[o][d], opt.labels[o][d], opt.frequency[o][d]))
    return ev


def hp_paths(w, paths):
    return [[ekey(n, w) for n in p] for p in paths]


def assign_event(w, opt):
    pairs = []
    for o in opt.hyperpaths:
        for d in opt.hyperpaths[o]:
            pairs.append({"o": sid(o.graph_node.id), "d": sid(d.graph_node.id), "v": num(opt.Vij[o][d]),
                          "stops": [{"s": ekey(s, w), "pct": num(opt.assignment[o][d][s] if s in opt.assignment[o][d] else 0),
                                     "paths": hp_paths(w, [p[1:] for p in opt.hyperpaths[o][d][s]])} for s in list(opt.hyperpaths[o][d])]})
    asg = [[sid(o.graph_node.id), sid(d.graph_node.id)] for o in opt.assignment for d in opt.assignment[o]]
    return {"op": "assign", "outcome": "ok", "pairs": pairs, "assigned": asg}


def plain(t):
    """copy of a nested table"""
    r = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for a in t:
        for b in t[a]:
            for c in t[a][b]:
                r[a][b][c] = t[a][b][c]
    return r


def loading(w, opt, f):
    A = P().Assignment
    out, r = call(A.get_alighting_and_boarding, opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, f)
    e = {"op": "loading", "outcome": out, "f": {x: num(f[x]) for x in w.rids}, "z": {}, "v": {}, "l": {}, "mls": {}}
    if out != "ok":
        return e, None
    z, v, l = r
    o2, mls = call(A.most_loaded_section, plain(l))
    e.update(outcome=o2, z=by_line(z, w), v=by_line(v, w), l=by_line(l, w))
    e["mls"] = {x: num(mls[x]) for x in mls} if o2 == "ok" else {}
    if not e["mls"]:
        e["mls"] = {"": "0"}
    return e, (z, v, l)


def resources(w, opt, f, z, v):
    U = OC().UsersCost
    o1, r = call(U.resources_consumer, opt.hyperpaths, opt.Vij, opt.assignment, opt.successors, opt.extended_graph_obj,
                 w.pax.va, f, plain(z), plain(v))
    o2, cost = call(U().get_users_cost, opt.hyperpaths, opt.Vij, opt.assignment, opt.successors, opt.extended_graph_obj, f,
                    w.pax, plain(z), plain(v))
    e = {"op": "resources", "outcome": o1 if o1 != "ok" else o2}
    if e["outcome"] == "ok":
        e.update(ta=num(r[0]), te=num(r[1]), tv=num(r[2]), t=num(r[3]), cost=num(cost))
    return e


def synthetic(w, eg, rng):
    """boardings, alightings and loads that no assignment would produce: any numbers at any stops"""
    t = [defaultdict(lambda: defaultdict(lambda: defaultdict(float))) for _ in range(3)]
    for n in enodes(eg):
        if ekey(n, w)[0] == "l":
            for x in t:
                if rng.random() < 0.5:
                    x[n.route.id][n.direction][n.stop_node] = rng.choice([0, 1, 2.5, 40, 0.001, rng.uniform(0, 30)])
    if rng.random() < 0.4:  # a direction where nobody boards, or nobody alights
        for r in w.rids:
            t[rng.randrange(2)][r].pop(rng.choice("IR"), None)
    return t


def operators(w, f, z, v, l):
    X = OC().OperatorsCost
    rs = w.net.get_routes()
    o1, tt = call(X.lines_travel_time, rs, w.g.get_edges_distance())
    e = {"op": "operators", "outcome": o1}
    if o1 != "ok":
        return e
    o2, ct = call(X.get_cycle_time, plain(z), plain(v), rs, tt)
    e["outcome"] = o2
    if o2 != "ok":
        return e
    o3, k = call(O().Optimizer.get_k, plain(l))
    if o3 != "ok":
        e["outcome"] = o3
        return e
    kk = {r: num(k[r]) for r in list(k)} or {"": "0"}
    o4, cost = call(X.get_operators_cost, rs, ct, f, k)
    e.update(outcome=o4, travel={r: num(tt[r]) for r in w.rids}, cycle={r: num(ct[r]) for r in w.rids}, k=kk,
             cost=num(cost) if o4 == "ok" else "0")
    return e


def infrastructure(w, f):
    I = OC().InfrastructureCost
    o1, ln = call(I.get_mode_network_distance, w.g, w.net, f)
    o2, c = call(I.get_infrastruture_cost, w.g, w.net, f)
    e = {"op": "infrastructure", "outcome": o1 if o1 != "ok" else o2, "f": {x: num(f[x]) for x in w.rids}}
    if e["outcome"] == "ok":
        e.update(len={w.tags.tag(m): num(ln[m]) for m in ln} or {"": "0"}, cost=num(c))
    return e


def citylinks(w):
    return [[sid(e.node1.id), sid(e.node2.id)] for e in w.g.get_edges()]


def constraint_event(w, f, part, o, val):
    return {"op": "constraints", "part": part, "outcome": o, "f": {x: num(f[x]) for x in w.rids}, "links": citylinks(w),
            "tags": [w.tags.tag(m) for m in w.net.get_modes()], "val": [num(x) for x in val] if o == "ok" else []}


def fmax_event(w, f):
    o, v = call(OC().Constrains.fmax_constrains, w.g, w.net.get_routes(), w.net.get_modes(), f)
    return constraint_event(w, f, "fmax", o, v)


def sizes_event(w, mls):
    t = defaultdict(float, mls)
    o, v = call(OC().Constrains.most_loaded_section_constrains, w.net.get_routes(), t)
    return {"op": "sizes", "outcome": o, "mls": {k: num(x) for k, x in mls.items()} or {"": "0"}, "val": [num(x) for x in v] if o == "ok" else []}


def strip(s):
    return re.sub(r"np\.float\d+\(([^()]*)\)", r"\1", s)


def table(t):
    return [[sid(a), sid(b), num(x)] for a, b, x in t]


def row_event(rows):
    return [{"id": str(r[0]), "F": num(r[1]), "f": num(r[2]), "k": num(r[3]), "b": num(r[4]), "tc": num(r[5]), "co": num(r[6]),
             "min": num(r[7]), "ti": table(r[8]), "tr": table(r[9])} for r in rows]


def text_rows(text):
    ls = text.split("\n")
    rows = []
    for l in ls[1:]:
        c = l.split(";")
        if len(c) != 10:
            rows.append({"id": "?", "F": "?", "f": "?", "k": "?", "b": "?", "tc": "?", "co": "?", "min": "?", "ti": [], "tr": []})
            continue
        rows.append({"id": c[0], "F": c[1], "f": c[2], "k": c[3], "b": c[4], "tc": c[5], "co": c[6], "min": c[7],
                     "ti": table(ast.literal_eval(strip(c[8]))), "tr": table(ast.literal_eval(strip(c[9])))})
    return ls[0].split(";"), rows


FIG = {"VRC": "VRC", "operators_cost": "co", "infrastructure_cost": "ci", "users_cost": "cu", "travel_time_on_board": "tv",
       "waiting_time": "te", "access_time": "ta", "transfers": "t"}
LABEL = {"Objective function VRC": "VRC", "Operators cost": "co", "Infrastructure cost": "ci", "Users cost": "cu",
         "Time on board vehicle": "tv", "Waiting time": "te", "Access time": "ta", "total travel time": "total", "Transfers": "t"}


def overall_event(w, o, r):
    e = {"op": "overall", "outcome": o}
    if o == "ok":
        res = {b: num(r[a]) for a, b in FIG.items()}
        for a, b in (("vehicles_mode", "B"), ("vehicle_capacity_mode", "K"), ("lines_mode", "L")):
            res[b] = {w.tags.tag(m): num(r[a][m]) for m in list(r[a])}
        e["res"] = res
    return e


def overall_text_event(w, o, text):
    e = {"op": "overall_text", "outcome": o}
    if o == "ok":
        val = {x: "missing" for x in list(FIG.values()) + ["total"]}
        val.update(B={}, K={}, L={})
        cur, names = None, {m.name: w.tags.tag(m) for m in w.net.get_modes()}
        for l in text.split("\n"):
            if ":" not in l:
                continue
            a, b = l.strip().rsplit(":", 1)
            a, b = a.split("[")[0].strip(), b.strip()
            if a in LABEL:
                val[LABEL[a]] = b
            elif a == "Mode name":
                cur = names.get(b, "?" + b)
            elif a in ("B", "K", "L") and cur:
                val[a][cur] = b
        e["val"] = val
    return e


# ------------------------------------------------------------------ recording an evaluation
def build_world(d, ev):
    o, w = call(World, d)
    if o != "ok":
        ev.append({"op": "world_failed", "outcome": o})
        raise ScenarioError("scenario not buildable: %s %s" % (o, short(d)))
    return w


def run_extended(d):
    """C13/C14: extended network alone (also with default frequencies, also twice)"""
    ev = []
    w = build_world(d, ev)
    for spec in d["fs"]:
        f = w.fdict(w.fvec(spec)) if spec else w.finis()
        ev.append(inputs(w, f))
        eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, f) if spec else P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt)
        ev.append(extended(w, eg))
    return ev


def run_strategy(d):
    """C15/C16: strategies and paths between pairs (connected or not)"""
    ev = []
    w = build_world(d, ev)
    f = w.fdict(w.fvec(d["f"]))
    ev.append(inputs(w, f))
    eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, f)
    rng = random.Random(d.get("sh", 0))
    if d.get("sh"):
        rng.shuffle(eg.get_extended_graph_edges())
    ev.append(extended(w, eg))
    h = P().Hyperpath(eg, w.pax)
    cs = [c for c in eg.get_extended_graph_nodes()]
    prs = [(a, b) for a in cs for b in cs if a is not b]
    rng.shuffle(prs)
    if d.get("od"):
        prs.sort(key=lambda p: [sid(x.graph_node.id) for x in p] != [str(x) for x in d["od"]])
    for o, t in prs[:d.get("pairs", 4)]:
        out, r = call(h.get_hyperpath_OD, o, t) if d.get("paths") else call(h.build_hyperpath_graph, o, t)
        if out != "ok":
            ev.append({"op": "strategy", "o": sid(o.graph_node.id), "d": sid(t.graph_node.id), "outcome": out, "label": {}, "suc": {"": []}, "freq": {}})
            continue
        if d.get("paths"):
            hp, lab, suc, fr = r
            ev.append(strat_event(w, eg, o, t, suc, lab, fr))
            ev.append({"op": "paths", "o": sid(o.graph_node.id), "d": sid(t.graph_node.id), "outcome": "ok",
                       "stops": [{"s": ekey(s, w), "paths": hp_paths(w, hp[s])} for s in list(hp)]})
        else:
            suc, lab, fr = r
            ev.append(strat_event(w, eg, o, t, suc, lab, fr))
    return ev


def run_validator(d):
    """C16: usable or not, several demands on one extended network, and the pairs produced"""
    ev = []
    w = build_world(d, ev)
    for i, x in enumerate(d.get("ds", [])):  # modes redefined after they were registered
        w.modes[i % len(w.modes)].d = x
    f = w.fdict(w.fvec(d["f"]))
    ev.append(inputs(w, f))
    eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, f)
    ev.append(extended(w, eg))
    h = P().Hyperpath(eg, w.pax)
    from sidermit.city import demand
    ids = sorted(int(n.id) for n in w.g.get_nodes())
    for dm in d["dems"]:
        D = demand.Demand(w.g)
        for a, b, v in dm:
            a, b = ids[a % len(ids)], ids[b % len(ids)]
            if a != b:
                D.change_vij(a, b, v)
        m = D.get_matrix()
        o, r = call(h.network_validator, m)
        ev.append({"op": "validator", "outcome": o if o != "ok" or r is True else "not_true", "demand": demand_list(m, False)})
        ev.append(extended(w, eg))  # the check leaves the network as it was
        o, r = call(h.get_all_hyperpaths, m)
        ev.append({"op": "validator", "outcome": o, "demand": demand_list(m, False)})
        if o == "ok":
            hp, lab, suc, fr, V = r
            ev.append({"op": "pairs", "demand": demand_list(m, False),
                       "pairs": [[sid(a.graph_node.id), sid(b.graph_node.id), num(V[a][b])] for a in V for b in V[a]]})
            for a in list(hp):
                for b in list(hp[a])[:2]:
                    ev.append(strat_event(w, eg, a, b, suc[a][b], lab[a][b], fr[a][b]))
                    ev.append({"op": "paths", "o": sid(a.graph_node.id), "d": sid(b.graph_node.id), "outcome": "ok",
                               "stops": [{"s": ekey(s, w), "paths": hp_paths(w, hp[a][b][s])} for s in list(hp[a][b])]})
    return ev


def waits(opt, f):
    """at every stop with a line to board in a strategy one of these lines runs"""
    p = P()
    for o in opt.successors:
        for t in opt.successors[o]:
            for n, es in opt.successors[o][t].items():
                rs = [e.nodej.route.id for e in es if isinstance(n, p.StopNode) and isinstance(e.nodej, p.RouteNode)]
                if rs and not sum(f[r] for r in rs) > 0:
                    return False
    return True


def run_eval(d):
    """an evaluation with Optimizer; d['want'] selects what is recorded after the strategies"""
    ev = []
    want = set(d["want"])
    w = build_world(d, ev)
    f0 = w.fdict(w.fvec(d["f"])) if d.get("f") else None
    Opt = O().Optimizer
    out, opt = call(Opt, w.g, w.dem, w.pax, w.net, f0)
    if out != "ok":
        # connected pairs and a usable mode set only: an optimiser has to exist
        raise ScenarioError("no optimiser: %s %s" % (out, short(d)))

    def head(op, f):
        r = [inputs(w, f), extended(w, op.extended_graph_obj)]
        r += strategies_of(w, op)
        r.append(assign_event(w, op))
        return r

    if want & {"assign", "loading", "resources", "operators", "constraints", "objective"}:
        ev += head(opt, f0 or w.finis())
        for spec in ([d["f"]] if d.get("f") else []) + d.get("evals", [None]):
            vec = w.fvec(spec) if spec else [w.finis()[r] for r in w.rids]
            if spec:
                # a line that does not run for the strategies keeps any frequency; a running line may stop
                # as long as at every stop some line of each strategy keeps running
                if not waits(opt, w.fdict(vec)):
                    vec = [max(x, 0.01) if (f0 or w.finis())[r] > 0 else x for x, r in zip(vec, w.rids)]
            f = w.fdict(vec)
            if not want & {"loading", "resources", "operators", "constraints", "objective"}:
                break
            e, zvl = loading(w, opt, f)
            ev.append(e)
            if zvl is None:
                continue
            z, v, l = zvl
            if "resources" in want: ev.append(resources(w, opt, f, z, v))
            if "operators" in want:
                ev.append(operators(w, f, z, v, l))
                z2, v2, l2 = synthetic(w, opt.extended_graph_obj, random.Random(repr(d["dem"])))
                ev.append({"op": "loading", "outcome": "ok", "f": {x: num(f[x]) for x in w.rids}, "z": by_line(z2, w), "v": by_line(v2, w), "l": by_line(l2, w), "mls": {"": "0"}})
                ev.append(operators(w, f, z2, v2, l2))
            if "constraints" in want:
                o, val = call(opt.get_constrains, vec)
                ev.append(constraint_event(w, f, "all", o, val))
                o, val = call(opt.constrains, l, f)
                ev.append(constraint_event(w, f, "all", o, val[0] + val[1] if o == "ok" else []))
            if "objective" in want:
                o, vrc = call(opt.VRC, vec)
                k = opt.get_k(l)
                o2, parts = call(lambda: (opt.operators_cost(z, v, f, k), opt.infrastructure_cost(f), opt.user_cost(
                    opt.hyperpaths, opt.Vij, opt.assignment, opt.successors, opt.extended_graph_obj, f, z, v)))
                e = {"op": "objective", "outcome": o if o != "ok" else o2}
                if e["outcome"] == "ok":
                    e.update(k={r: num(k[r]) for r in list(k)} or {"": "0"}, vrc=num(vrc), co=num(parts[0]), ci=num(parts[1]), cu=num(parts[2]))
                ev.append(e)
    if "vector" in want:
        given = f0 if f0 is not None else w.finis()
        ev.append({"op": "vector", "outcome": "ok", "fopt": [num(x) for x in opt.f_opt], "fini": {r: num(x) for r, x in opt.f.items()},
                   "given": {r: num(given[r]) for r in w.rids}})
        for arg in (None, w.fdict(w.fvec([3, 0, 7.25, 1e-3]))):
            o, r = call(opt.f0, arg)
            gv = arg if arg is not None else w.finis()
            ev.append({"op": "vector", "outcome": o, "fopt": [num(x) for x in r[1]] if o == "ok" else [], "fini": {a: num(x) for a, x in r[0].items()} if o == "ok" else {},
                       "given": {a: num(gv[a]) for a in w.rids}})
        for spec in ([1.5, 0, 1e-9, 300], [7]):
            vec = w.fvec(spec)
            o, r = call(opt.fopt_to_f, vec)
            ev.append({"op": "back", "outcome": o, "vec": [num(x) for x in vec], "f": {a: num(x) for a, x in r.items()} if o == "ok" else {}})
    if want & {"report", "overall"}:
        for spec in d["fopts"]:
            if spec == "optimise":
                o, op2 = call(Opt.network_optimization, w.g, w.dem, w.pax, w.net, f0, 0.01, 3)
                if o in BUILTIN:
                    raise ScenarioError("optimisation: %s %s" % (o, short(d)))
                if o != "ok":
                    continue
                fopt = list(op2.better_res[0])
            else:
                fopt = w.fvec(spec)
                op2 = opt
                op2.better_res = (fopt, True, 1, "set", 0.0, 1.0)
            f = w.fdict(fopt)
            out, fin = call(Opt, w.g, w.dem, w.pax, w.net, f)
            if out != "ok":
                prs = reach_pairs(w, f)
                if out != "TransportNetworkException" or all((a, b) in prs for a, b, v in demand_pairs(w)):
                    raise ScenarioError("no optimiser: %s %s" % (out, short(d)))
                continue  # not connected at these frequencies: outside of the domain
            ev += head(fin, f)
            e, zvl = loading(w, fin, f)
            ev.append(e)
            if "report" in want:
                o, rows = call(op2.get_network_results)
                ev.append({"op": "report", "outcome": o, "rows": row_event(rows) if o == "ok" else []})
                if o == "ok":
                    o, text = call(op2.string_network_results)
                    fn = tempfile.mktemp(dir="/tmp", prefix="vp-report-")
                    o2, _ = call(op2.write_file_network_results, fn)
                    content = ""
                    if os.path.exists(fn):
                        content = open(fn, encoding="utf-8").read()
                        os.unlink(fn)
                    e = {"op": "report_text", "outcome": o if o != "ok" else o2, "header": [], "rows": [], "text": "", "file": ""}
                    if o == "ok":
                        hd, rws = text_rows(text)
                        e.update(header=hd, rows=rws, text=text, file=content)
                    ev.append(e)
            if "overall" in want:
                o, r = call(op2.get_overall_results)
                ev.append(overall_event(w, o, r))
                if o == "ok":
                    o, text = call(op2.string_overall_results)
                    ev.append(overall_text_event(w, o, text))
    return ev


def run_costs(d):
    """C20-C22 without an assignment: infrastructure, link frequency and size constraints at arbitrary frequencies"""
    ev = []
    w = build_world(d, ev)
    ev.append(inputs(w, w.finis()))
    for spec in d["fs"]:
        f = w.fdict(w.fvec(spec))
        if "infrastructure" in d["want"]: ev.append(infrastructure(w, f))
        if "constraints" in d["want"]:
            ev.append(fmax_event(w, f))
            ev.append(sizes_event(w, {r: spec[(i + 1) % len(spec)] * 3.5 for i, r in enumerate(w.rids) if (i + len(spec)) % 3}))
    return ev


# ------------------------------------------------------------------ generators
EXTREME = [("v", 0.8), ("v", 300), ("tat", 90), ("t", 300), ("fini", 0.02), ("fini", 0.02), ("fini", 900), ("fmax", 0.5), ("fmax", 1e5), ("kmax", 0.5), ("kmax", 1e6),
           ("co", 1e5), ("c1", 300), ("c2", 1e5), ("theta", 0.001), ("d", 40)]


def gen_mode(rng, d=None):
    m = gen_mode1(rng, d)
    if rng.random() < 0.1:                      # a figure far from the usual ones
        k, v = rng.choice(EXTREME)
        if k != "d" or d is None:
            m[k] = v
    return m


def gen_mode1(rng, d=None):
    return dict(d=d if d is not None else rng.choice([1, 1, 2, 3, 4, 5, 6, 10]), v=rng.choice([15, 20, 40, 27.5]), tat=rng.choice([0, 0, 0.5, 1.5, 4]),
                theta=rng.choice([0.7, 0.5, 1, 0.3] + ([0] if rng.random() < 0.2 else [])), t=rng.choice([0, 2.5, 0.33, 6]), bya=rng.choice([0, 1]),
                fini=rng.choice([28, 10, 3.5, 60]), fmax=rng.choice([150, 40, 12]), kmax=rng.choice([160, 40, 1440]),
                co=rng.choice([8.61, 0, 20]), c1=rng.choice([0.15, 0, 0.5]), c2=rng.choice([0, 80.91, 3]))


def gen_pax(rng):
    if rng.random() < 0.3:
        return None
    c = lambda *a: rng.choice(a)
    return dict(va=c(4.0, 3.0, 1), pv=c(2.74, 1, 3), pw=c(5.48, 2, 1, 9), pa=c(8.22, 3, 1), pt=c(16, 0, 5, 30), spv=c(2.74, 1, 4),
                spw=c(5.48, 1, 2), spa=c(8.22, 1, 2), spt=c(16, 0, 7))


def gen_city(rng, nmax=4, sym=0.3):
    n = rng.randint(1, nmax)
    if rng.random() < 0.2:
        t = text_cities(rng, 1)[0]
        return {"text": t}
    q = dict(n=n, l=rng.choice([10, 3.0, 6.5]), g=rng.choice([0.2, 0.5, 0.85, 1.0, 1.5]), p=rng.choice([2, 1, 0.5, 3.7]))
    if rng.random() > sym and n > 1:
        k = rng.random()
        if k < 0.4:
            q.update(etha=round(rng.uniform(0.5, 2.0), 2), ethaZone=rng.randint(1, n))
        if k > 0.3:
            step = 360 / n
            q["angles"] = [round(z * step + rng.uniform(0, step * 0.6), 1) for z in range(n)]
        if rng.random() < 0.4:
            q["Gi"] = [round(rng.uniform(0.7, 1.6), 2) for _ in range(n)]
            q["Hi"] = [round(rng.uniform(0.7, 1.6), 2) for _ in range(n)]
    return {"q": q}


def city_of(d):
    return G().Graph.build_from_content(d["text"]) if "text" in d else G().Graph.build_from_parameters(**kw(d["q"]))


def gen_routes(rng, d, g, nm, k=None):
    n = g.get_n()
    rs, c = [], 0
    for m in range(nm):
        for _ in range(k or rng.randint(1, 3)):
            u = rng.random()
            if u < 0.5:
                f, s, e = rng.choice(FAMILIES)
                if n < 2 and f in ("circular", "tangencial", "diametral"):
                    f, s, e = "radial", s, e
                r = {"m": m, "fam": f, "short": bool(s), "express": bool(e), "jump": rng.randint(1, max(1, n // 2))}
                if rng.random() < 0.5 and f != "circular":
                    r["pick"] = [rng.randint(0, 20) for _ in range(rng.randint(1, 3))]
            else:
                seq = gen_custom(rng, g) if rng.random() > 0.2 else long_express(rng, g)
                if not seq:
                    continue
                if any(len(x) < 2 for x in seq):
                    continue
                r = {"m": m, "id": "c%d" % c, "seq": seq}
                c += 1
            rs.append(r)
    # routes are kept only if the code under test accepts them (network.add_route is judged by C09-C11)
    return rs


def long_express(rng, g):
    """a long custom route which calls at few of the nodes it drives through"""
    qs = [q for q in (gen_custom(rng, g) for _ in range(12)) if q and all(len(x) > 1 for x in q)]
    if not qs:
        return None
    ni, nr, si, sr = max(qs, key=lambda q: len(q[0]) + len(q[1]))
    st = lambda n: [n[0]] + sorted(rng.sample(n[1:-1], 1) if len(n) > 4 and rng.random() < 0.4 else [], key=n.index) + [n[-1]]
    return ni, nr, st(ni), st(nr)


def gen_dead_end(rng, g):
    """a mode that serves the origin but goes nowhere else, next to one that serves the trips"""
    z = rng.choice(g.get_zones())
    p, s, c, k = int(z.periphery.id), int(z.subcenter.id), int(g.get_cbd().id), rng.randrange(2)
    back = lambda q: (q, q[::-1], list(q), q[::-1])
    if rng.random() < 0.5:
        rs = [{"m": k, "id": "main", "seq": back([s, c])}, {"m": 1 - k, "id": "dead", "seq": back([s, p])}]
    else:
        rs = [{"m": k, "id": "main", "seq": back([s, p])}, {"m": 1 - k, "id": "dead", "seq": back([s, c])}]
    rng.shuffle(rs)
    return rs


def gen_bundle(rng, g, nm):
    """several lines with common stops: the same corridor in different lengths and stop patterns"""
    adj = defaultdict(list)
    for a, b in sorted((int(e.node1.id), int(e.node2.id)) for e in g.get_edges()):
        adj[a].append(b)
    both = lambda a: [b for b in adj[a] if a in adj[b]]
    starts = [a for a in sorted(adj) if both(a)]
    if not starts:
        return []
    path = [rng.choice(starts)]
    for _ in range(rng.randint(2, 6)):
        nx = [b for b in both(path[-1]) if b not in path]
        if not nx:
            break
        path.append(rng.choice(nx))
    rs = []
    for c in range(rng.randint(3, 7)):
        m = rng.randrange(nm)
        a = rng.randint(0, len(path) - 2)
        b = rng.randint(a + 1, len(path) - 1)
        if rng.random() < 0.5:
            a, b = 0, len(path) - 1
        x = path[a:b + 1]
        if rng.random() < 0.3:
            x = x[::-1]
        y = x[::-1]
        sx = [q for i, q in enumerate(x) if i in (0, len(x) - 1) or rng.random() < 0.6]
        sy = sx[::-1] if rng.random() < 0.5 else [q for i, q in enumerate(y) if i in (0, len(y) - 1) or rng.random() < 0.6]
        rs.append({"m": m, "id": "b%d" % c, "seq": [x, y, sx, sy]})
    return rs


def gen_chain(rng, g):
    """lines of one mode in groups, one group after the other: many elementary paths between the two ends"""
    adj = defaultdict(list)
    for a, b in sorted((int(e.node1.id), int(e.node2.id)) for e in g.get_edges()):
        adj[a].append(b)
    both = lambda a: [b for b in adj[a] if a in adj[b]]
    starts = [a for a in sorted(adj) if both(a)]
    if not starts:
        return [], []
    path = [rng.choice(starts)]
    for _ in range(rng.choice([2, 2, 3])):
        nx = [b for b in both(path[-1]) if b not in path]
        if not nx:
            return [], []
        path.append(rng.choice(nx))
    rs = []
    for j, (a, b) in enumerate(zip(path, path[1:])):
        for c in range(rng.randint(5, 8) if len(path) == 3 else rng.randint(2, 5)):
            rs.append({"m": 0, "id": "%d-%d" % (j, c), "seq": [[a, b], [b, a], [a, b], [b, a]]})
    if rng.random() < 0.3:
        rng.shuffle(rs)
    return rs, [path[0], path[-1]]


def gen_chained(rng):
    """strategies with tens of elementary paths that leave one stop"""
    def make():
        d, w = gen_base(rng, 4, 1)
        d["routes"], d["od"] = gen_chain(rng, w.g)
        if not d["od"]:
            return None
        d["f"] = rng.choice([[10], [28], [5.5, 6], [10, 11, 12, 10.5]])
        call(World, dict(d, dem=[]))
        return d
    return until(make, "groups of lines one after the other")


def gen_chained_strategy(rng):
    return dict(gen_chained(rng), sh=rng.choice([0, rng.randint(1, 10 ** 6)]), pairs=2, paths=True)


def gen_chained_eval(rng, want):
    """passengers of many lines that meet at a transfer, some of them in equal groups"""
    def make():
        d = gen_chained(rng)
        o, w = call(World, dict(d, dem=[]))
        if o != "ok":
            return None
        d["want"] = want
        d["dem"] = gen_demand(rng, w, w.fdict(w.fvec(d["f"])), 2)
        ids = sorted(int(n.id) for n in w.g.get_nodes())
        d["dem"] = [[ids.index(d["od"][0]), ids.index(d["od"][1]), rng.choice([60, 100, 37.5])]] + d["dem"]
        d["dem"] = list({(x[0], x[1]): x for x in d["dem"][::-1]}.values())
        d["evals"] = [gen_f(rng, 0.4)]
        d["fopts"] = [gen_f(rng, 0.2)] if set(want) & {"report", "overall"} else []
        return d
    return until(make, "groups of lines one after the other, with demand")


def gen_base(rng, nmax=4, modes=None, tries=50):
    with bounded(60, "a transport system"):
        return gen_base1(rng, nmax, modes, tries)


def gen_base1(rng, nmax, modes, tries):
    for _ in range(tries):
        d = gen_city(rng, nmax)
        o, g = call(city_of, d)
        if o != "ok" or not g.get_edges():
            continue
        nm = modes or rng.choice([1, 1, 2])
        d["modes"] = [gen_mode(rng, 1 if i == 0 and nm == 2 else None) for i in range(nm)]
        if nm == 2 and rng.random() < 0.5:
            d["modes"].reverse()
        d["routes"] = gen_bundle(rng, g, nm) if rng.random() < 0.25 else gen_routes(rng, d, g, nm)
        if rng.random() < 0.15:
            d["routes"] += gen_bundle(rng, g, nm)
        if g.get_n() > 1 and rng.random() < 0.12:  # lines around the centre carry the trips
            d["routes"] = [{"m": rng.randrange(nm), "fam": "circular"}] + (d["routes"] if rng.random() < 0.4 else [])
        if nm == 2 and rng.random() < 0.08:
            d["routes"] = gen_dead_end(rng, g)
        if nm == 2 and rng.random() < 0.15:     # two modes that differ little, on the same corridors
            d["modes"] = [dict(d["modes"][0], d=1) for _ in range(2)]
            if rng.random() < 0.4:
                k = rng.choice(["v", "tat", "theta", "fmax", "kmax", "co", "c2", "bya"])
                d["modes"][1][k] = gen_mode(rng)[k]
            d["routes"] = [r for r in d["routes"] if r["m"] == 0] or d["routes"]
            d["routes"] += [dict(r, m=1 - r["m"], **({"id": r["id"] + "x"} if "id" in r else {})) for r in d["routes"]]
            if rng.random() < 0.3:
                rng.shuffle(d["routes"])
        if nm == 2 and rng.random() < 0.12:     # one of the modes has no routes
            m = rng.randrange(2)
            for r in d["routes"]:
                r["m"] = m
        d["pax"] = gen_pax(rng)
        if rng.random() < 0.3:
            d["called"] = rng.choice([["tram", "bus"], ["b", "a"], ["Metro", "bus-10"], ["x", "xx"]])
        if rng.random() < 0.3:                  # route names in no particular order
            ren = rng.sample(["10", "9", "zz", "a", "R2", "line-7", "Z", "c1", "c0", "07", "7"], 11)
            for r, name in zip([r for r in d["routes"] if "id" in r], ren):
                r["id"] = name
        o, w = call(World, dict(d, dem=[]))
        if o == "ok" and w.rids:
            return d, w
    raise ScenarioError("a transport system: not one of %d valid ones can be set up" % tries)


def gen_f(rng, zero=0.15):
    k = rng.randint(1, 7)
    u = rng.random()
    vals = [28, 10, 1, 5.5, 40, 0.7, 13] if u < 0.65 else [0.7, 0.3, 0.05, 0.0421, 1, 0.2] if u < 0.85 else [28, 0.045, 3, 0.5, 150, 0.01]
    if rng.random() < 0.25:     # values with all their digits, and very low ones
        vals = vals + [rng.uniform(0.5, 60), rng.uniform(0.01, 0.5), 1.2345e-4 * rng.randint(1, 9)]
    f = [rng.choice(vals) for _ in range(k)]
    if rng.random() < zero:
        f[rng.randrange(k)] = 0
    return f


def served(w):
    s = set()
    for r in w.net.get_routes():
        s |= set(int(x) for x in list(r.stops_sequence_i) + list(r.stops_sequence_r))
    return s


def reach_pairs(w, f=None):
    """pairs connected by lines (transfers at common nodes), from the recorded routes only"""
    step = defaultdict(set)
    for r in w.net.get_routes():
        if f is not None and f[r.id] == 0:
            continue
        for q in (r.stops_sequence_i, r.stops_sequence_r):
            q = [int(x) for x in q]
            ring = r._type.name == "CIRCULAR"
            for i, a in enumerate(q):
                for b in (q if ring else q[i + 1:]):
                    step[a].add(b)
    res = set()
    for a in list(step):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in step.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        res |= {(a, b) for b in seen if b != a}
    return res


def gen_demand(rng, w, f, kmax=4):
    ids = sorted(int(n.id) for n in w.g.get_nodes())
    prs = sorted(reach_pairs(w, f))
    if not prs:
        return []
    out = rng.sample(prs, min(len(prs), rng.randint(1, kmax)))
    if rng.random() < 0.3:  # several destinations of one origin
        o = rng.choice(prs)[0]
        x = [q for q in prs if q[0] == o]
        out = rng.sample(x, min(len(x), kmax + 1)) + out[:1]
    vals = rng.choice([[1, 100, 37.5, 1000, 2500.25], [1, 100, 37.5, 1000, 2500.25], [0.25, 0.0004, 0.03, 1], [2500, 0.0005, 3e-5]])
    return [[ids.index(a), ids.index(b), rng.choice(vals)] for a, b in dict.fromkeys(out)]


def gen_eval(rng, want, nmax=4, modes=None, zero=0.2, **k):
    def make():
        d, w = gen_base(rng, nmax, modes)
        if len(w.rids) > k.get("lines", 14):
            return None
        d["want"] = want
        if rng.random() < 0.8:
            d["f"] = gen_f(rng, zero)
        f = w.fdict(w.fvec(d["f"])) if d.get("f") else w.finis()
        d["dem"] = gen_demand(rng, w, f, k.get("pairs", 4))
        if not d["dem"]:
            return None
        d["evals"] = [gen_f(rng, 0.4) for _ in range(k.get("evals", 1))]
        d["fopts"] = []
        for _ in range(k.get("fopts", 0)):
            d["fopts"].append(gen_f(rng, 0.4))
        return d
    return until(make, "a transport system with demand")


def gen_big(rng, want, **k):
    """an evaluation of a larger system: many zones, lines and pairs"""
    def make():
        d, w = gen_base(rng, 12, **k)
        if not (len(w.g.get_nodes()) >= 11 and 7 <= len(w.rids) <= 36):
            return None
        d["want"] = want
        d["f"] = gen_f(rng, 0.1)
        f = w.fdict(w.fvec(d["f"]))
        d["dem"] = gen_demand(rng, w, f, rng.randint(6, 24))
        if len(d["dem"]) < 5:
            return None
        d["evals"] = [gen_f(rng, 0.4)]
        d["fopts"] = [gen_f(rng, 0.2)] if set(want) & {"report", "overall"} else []
        return d
    return until(make, "a larger transport system with demand", 500, 300)


def big(c, want, q=14, t=200, **k):
    return [gen_big(c.rng, want, **k) for _ in range(t if c.thorough() else q)]


def chained(c, want, q=8, t=150):
    return [gen_chained_eval(c.rng, want) for _ in range(t if c.thorough() else q)]


def many(c, gen, n, **k):
    rng = c.rng
    return [gen(rng) for _ in range(n)]


# ------------------------------------------------------------------ the checks
def gen_ext(rng):
    d, w = gen_base(rng, rng.choice([2, 3, 4, 4, 6] + ([14] if rng.random() < 0.2 else [])))
    d["fs"] = [gen_f(rng), None, gen_f(rng, 0.5)]
    return d


def C13(c):
    c.judge("TC13", run_extended, many(c, gen_ext, 3000 if c.thorough() else 330))


def C14(c):
    c.judge("TC14", run_extended, many(c, gen_ext, 2500 if c.thorough() else 270))


def gen_strategy(rng, paths=False):
    d, w = gen_base(rng, rng.choice([1, 2, 2, 3, 4] + ([10] if rng.random() < 0.2 else [])))
    d["f"] = gen_f(rng, 0.3)
    d["sh"] = rng.choice([0, 0, rng.randint(1, 10 ** 6)])
    d["pairs"] = rng.randint(2, 5)
    d["paths"] = paths
    return d


def run_case(d):
    """inputs and labels of one pair, for the exhaustive model of label setting"""
    w = build_world(d, [])
    f = w.fdict(w.fvec(d["f"]))
    eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, f)
    cs = list(eg.get_extended_graph_nodes())
    rng = random.Random(d["sh"])
    rng.shuffle(eg.get_extended_graph_edges())
    o, t = rng.sample(cs, 2)
    out, r = call(P().Hyperpath(eg, w.pax).build_hyperpath_graph, o, t)
    e = inputs(w, f)
    lab = {} if out != "ok" else {ekey(n, w): num(r[1][n]) for n in enodes(eg)}
    return [{"in": e["in"], "o": sid(o.graph_node.id), "d": sid(t.graph_node.id), "label": lab, "outcome": out}]


def gen_case(rng, size):
    """small networks with ties: no transfer or access times, equal routes"""
    def make():
        d, w = gen_base(rng, rng.choice([1, 1, 2]))
        n = sum(len(set(r.stops_sequence_i)) + len(set(r.stops_sequence_r)) for r in w.net.get_routes())
        if len(served(w)) < 2 or n > size:
            return None
        d["f"], d["sh"] = gen_f(rng, 0.2), rng.randint(1, 10 ** 6)
        if rng.random() < 0.6:
            for m in d["modes"]:
                m["tat"] = 0
            d["pax"] = dict(gen_pax(rng) or dict(va=4.0, pv=1, pw=2, pa=3, pt=0, spv=1, spw=2, spa=3, spt=0), pt=0)
        return d
    return until(make, "a small transport system", 2000)


def strategy_model(c, n, size):
    """exhaustive exploration of every order of ties, compared with the labels of the real code"""
    descs = [gen_case(c.rng, size) for _ in range(n)]
    cases = [e[0] for e in pmap(run_case, descs)]
    for d, e in zip(descs, cases):
        if e.get("outcome") != "ok":
            c.viol.append((["no_strategy"], d, e, "MStrategy"))
    ok = [(d, e) for d, e in zip(descs, cases) if e.get("outcome") == "ok"]
    path = c.scratch.path("cases.json")
    json.dump([e for _, e in ok], open(path, "w"))
    s, t, lines, out = explore(c.scratch, "MStrategy", env={"CASES": path}, workers=8, timeout=500)
    c.states += s; c.transitions += t; c.traces += len(ok)
    c.extra.setdefault("models", []).append({"module": "MStrategy", "distinct_states": s, "states_generated": t, "networks": len(ok)})
    for k in {b["c"] for b in tagged(out, "B")}:
        c.viol.append((["labels_of_the_model"], ok[k - 1][0], ok[k - 1][1], "MStrategy"))


def C15(c):
    strategy_model(c, 60 if c.thorough() else 24, 20 if c.thorough() else 16)
    c.judge("TC15", run_strategy, many(c, gen_strategy, 3500 if c.thorough() else 360)
            + [gen_twins(c.rng, x) for x in TWINS + [None] * (100 if c.thorough() else 16)]
            + [dict(gen_chained_strategy(c.rng), paths=False) for _ in range(160 if c.thorough() else 10)])


TWINS = [(10, 15, 1, 4, 10, 1e-15), (10, 15, 4, 4, 10, 1e-15), (10, 20, 3, 1.5, 0.7, 1e-9), (7, 27, 1, 4, 0.7, 1e-12), (6.5, 15, 1, 4, 28, 1e-9), (3, 15, 4, 4, 3, 1e-12),
         (3, 20, 3, 1.5, 28, 1e-12), (5.7, 27, 1, 4, 3, 1e-12)]


def gen_twins(rng, x):
    """lines of equal cost without waiting, of frequencies many orders apart"""
    l, v, dd, tat, f1, f2 = x or (rng.choice([10, 7, 6.5, 3, 9.3]), rng.choice([15, 20, 27, 18]), rng.choice([1, 3, 4, 5]), rng.choice([4, 1.5, 7, 0]),
                                  rng.choice([28, 10, 3, 7, 0.7, 11.3]), 10.0 ** -rng.randint(3, 15))
    fs = [f1, f2] if x or rng.random() < 0.5 else [f1, f2, rng.choice([f1, f2, 5])]
    return {"q": {"n": 1, "l": l, "g": 0.5, "p": 2}, "modes": [dict(gen_mode1(rng, dd), v=v, tat=tat, theta=0)], "pax": None if x else gen_pax(rng), "f": fs,
            "routes": [{"m": 0, "id": "t%d" % i, "seq": [[2, 0], [0, 2], [2, 0], [0, 2]]} for i in range(len(fs))],
            "sh": 0, "pairs": 4, "paths": False}


def gen_validator(rng):
    d, w = gen_base(rng, rng.choice([1, 2, 3, 4]))
    dead = rng.random() < 0.15
    if dead:
        d["modes"] = [gen_mode(rng, 1), gen_mode(rng)]
        d["routes"] = gen_dead_end(rng, w.g)
        if rng.random() < 0.5:
            d["modes"].reverse()
        w = World(dict(d, dem=[]))
    d["f"] = gen_f(rng, 0 if dead else 0.4)
    f = w.fdict(w.fvec(d["f"]))
    nn = len(w.g.get_nodes())
    if rng.random() < 0.25:
        d["ds"] = [rng.choice([1, 2, 3, 10]) for _ in range(2)]
    d["dems"] = []
    for _ in range(rng.randint(1, 3)):
        u = rng.random()
        dm = gen_demand(rng, w, f, 4) if u < 0.7 else []
        if u > 0.5:
            a, b, v = rng.randrange(nn), rng.randrange(nn), rng.choice([1, 0, 20, 0.0004, 1e-6])
            dm = dm + [[a, b, v]] + ([[b, a, rng.choice([1, 0, 3])]] if rng.random() < 0.4 else [])
            rng.shuffle(dm)
        d["dems"].append(dm)
    return d


def C16(c):
    t = c.thorough()
    c.judge("TC16", run_validator, many(c, gen_validator, 1500 if t else 180))
    c.judge("TC16", run_strategy, many(c, lambda r: gen_strategy(r, True), 1500 if t else 180) + many(c, gen_chained_strategy, 240 if t else 14))


# ---- C17: the split on stops with given labels
class FakeMode:
    def __init__(self, d):
        self.d = d


def run_splits(d):
    from collections import defaultdict as dd
    p = P()
    ev = []
    for q in d["cases"]:
        stops = [p.StopNode(i, mkmode("m%d" % i, s["d"]), None) for i, s in enumerate(q["stops"])]
        hp = dd(lambda: dd(lambda: dd(list)))
        lab = dd(lambda: dd(lambda: dd(float)))
        for s, x in zip(stops, q["stops"]):
            hp["o"]["d"][s].append(["o", s, "d"])
            lab["o"]["d"][s] = x["lab"]
        out, a = call(p.Assignment.get_assignment, hp, lab, q["p"], q["vp"], q["pa"], q["pv"])
        ev.append({"op": "split", "outcome": out, "p": num(q["p"]), "vp": num(q["vp"]), "pa": num(q["pa"]), "pv": num(q["pv"]),
                   "stops": [{"d": num(x["d"]), "lab": num(x["lab"]), "pct": num(a["o"]["d"][s] if out == "ok" and s in a["o"]["d"] else 0)}
                             for s, x in zip(stops, q["stops"])]})
    out, a = call(p.Assignment.get_assignment, dd(lambda: dd(lambda: dd(list))), dd(lambda: dd(lambda: dd(float))), 2.0, 4.0, 8.22, 2.74)
    ev.append({"op": "splitnone", "outcome": out, "n": sum(len(a[o]) for o in a) if out == "ok" else -1})
    return ev


def split_cases(rng, k):
    """labels around every indifference point: line positions, stripe edge, ties"""
    cs = []
    for _ in range(k):
        p, vp = rng.choice([2, 1, 4.0, 3.7]), rng.choice([4.0, 1, 2.5])
        pa, pv = rng.choice([(8.22, 2.74), (1, 1), (2, 1), (1, 4)])
        dd = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15])
        # indifference walks of interest
        pos = [((2 * i - 1 - dd) * p) / (2 * dd) for i in range(1, dd + 1)]
        w = abs(rng.choice(pos + [p / 2, 0, 0, rng.uniform(0, p), rng.uniform(0, p / 2)])) + rng.choice([0, 0, 1e-7, -1e-7, 0.01, -0.01])
        dl = rng.choice([1, 1, 1, -1]) * w * (pa / pv) / vp
        base = rng.choice([0.5, 1, 0.3])
        a, b = {"d": 1, "lab": base + max(0, -dl)}, {"d": dd, "lab": base + max(0, dl)}
        st = [a, b]
        if rng.random() < 0.5:
            st.reverse()
        if rng.random() < 0.08:
            st = st[:1]
        cs.append({"p": p, "vp": vp, "pa": pa, "pv": pv, "stops": st})
    return cs


def all_splits():
    """all small configurations on a rational grid"""
    cs = []
    for dd in range(1, 13):
        for k in range(-2 * dd - 2, 2 * dd + 3):
            dl = k / (4 * dd)  # walk in stripe units of 1/(4d): lines, midpoints and edges
            cs.append({"p": 2, "vp": 1, "pa": 2, "pv": 1, "stops": [{"d": 1, "lab": 4 + max(0, -dl) * 4}, {"d": dd, "lab": 4 + max(0, dl) * 4}]})
            cs.append({"p": 2, "vp": 1, "pa": 2, "pv": 1, "stops": [{"d": dd, "lab": 4 + max(0, dl) * 4}, {"d": 1, "lab": 4 + max(0, -dl) * 4}]})
    return cs


def C17(c):
    t = c.thorough()
    al = all_splits()
    desc = [{"cases": al[i:i + 40]} for i in range(0, len(al), 40)] + [{"cases": split_cases(c.rng, 40)} for _ in range(750 if t else 72)]
    c.judge("TC17", run_splits, desc)
    c.judge("TC17", run_eval, many(c, lambda r: gen_eval(r, ["assign"], modes=r.choice([1, 2, 2])), 1250 if t else 150) + big(c, ["assign"]))


def C18(c):
    c.judge("TC18", run_eval, many(c, lambda r: gen_eval(r, ["loading"], evals=r.choice([0, 1, 2])), 2000 if c.thorough() else 210) + big(c, ["loading"]) + chained(c, ["loading"]), limit=120)


def C19(c):
    c.judge("TC19", run_eval, many(c, lambda r: gen_eval(r, ["resources"], evals=r.choice([0, 1, 2])), 2000 if c.thorough() else 210) + big(c, ["resources"]) + chained(c, ["resources"]), limit=120)


def C20(c):
    c.judge("TC20", run_eval, many(c, lambda r: gen_eval(r, ["operators"], evals=r.choice([1, 2])), 2000 if c.thorough() else 240) + big(c, ["operators"]), limit=120)


def gen_cost(rng, want):
    d, w = gen_base(rng, rng.choice([2, 3, 4, 5] + ([12] if rng.random() < 0.2 else [])))
    d["want"] = want
    d["fs"] = [gen_f(rng), gen_f(rng, 0.7), gen_f(rng, 1), [0], [1e-9, 300, 28]]
    return d


def C21(c):
    c.judge("TC21", run_costs, many(c, lambda r: gen_cost(r, ["infrastructure"]), 2500 if c.thorough() else 330))


def C22(c):
    t = c.thorough()
    c.judge("TC22", run_costs, many(c, lambda r: gen_cost(r, ["constraints"]), 1500 if t else 180))
    c.judge("TC22", run_eval, many(c, lambda r: gen_eval(r, ["constraints"], nmax=3, evals=2), 1000 if t else 120) + big(c, ["constraints"]), limit=120)


def C23(c):
    c.judge("TC23", run_eval, many(c, lambda r: gen_eval(r, ["objective", "vector", "constraints"], evals=2, nmax=3), 1500 if c.thorough() else 180) + big(c, ["objective", "vector", "constraints"]), limit=120)


def gen_report(rng, want):
    d = gen_eval(rng, want, nmax=3, fopts=2, evals=0, modes=rng.choice([1, 1, 2]))
    if d.get("f") and rng.random() < 0.25:      # an answer near the start
        d["fopts"][0] = [round(x * rng.choice([1, 1.0001, 1.02, 0.97, 1.1]), 7) for x in d["f"]]
    if rng.random() < 0.15:
        o, w = call(World, d)
        if o == "ok" and len(w.rids) <= 5 and len(w.rids) * len(demand_pairs(w)) <= 60:  # the real optimisation of a large system takes minutes
            d["fopts"] = ["optimise"] + d["fopts"][:1]
    return d


def C25(c):
    c.judge("TC25", run_eval, many(c, lambda r: gen_report(r, ["report"]), 2700 if c.thorough() else 330) + big(c, ["report"]) + chained(c, ["report"], 4, 100), limit=150)


def C26(c):
    c.judge("TC26", run_eval, many(c, lambda r: gen_report(r, ["overall"]), 2700 if c.thorough() else 330) + big(c, ["overall"]) + chained(c, ["overall"], 4, 100), limit=150)
