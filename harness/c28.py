"""C28: text listings of extended networks, strategies, paths, pairs and loads."""
import random, re
from vlib import *
from cityio import sid
import pipe
from pipe import P, ekey, enodes, inputs, extended, strat_event, hp_paths, build_world

EDGE = re.compile(r"\[([\w.]*): (.*?) - (.*?)\] ?")
NUMB = r"(-?[\d.einf+-]+|nan)"


class Shape(Exception):
    pass


def after(line, *pre):
    for p in pre:
        if line.startswith(p):
            return line[len(p):]
    raise Shape(line)


def figure(s, unit=""):
    s = s.strip()
    if unit:
        if not s.endswith(unit):
            raise Shape(s)
        s = s[:-len(unit)].strip()
    return num(float(s))


def parse_network(t):
    """[{name, stops: [{access, mode, lines: [{board, alight, route, dir, prev, t}]}]}]"""
    cities, access, board, alight, cur = [], [], [], [], None
    for raw in t.split("\n"):
        l = raw.strip()
        if l in ("", "City node", "Access edge", "Stop node", "Boarding edge", "Alighting edge", "Route node"):
            if l == "Route node":
                cur = {"board": board, "alight": alight}
                cities[-1]["stops"][-1]["lines"].append(cur)
                board, alight = [], []
        elif l.startswith("-Graph node name: "):
            cities.append({"name": after(l, "-Graph node name: "), "stops": []})
        elif l.startswith("-Access time: "):
            access.append(figure(after(l, "-Access time: "), "[min]"))
        elif l.startswith("-Mode name: "):
            cities[-1]["stops"].append({"mode": after(l, "-Mode name: "), "access": access, "lines": []})
            access = []
        elif l.startswith("-Frequency: "):
            board = board + [figure(after(l, "-Frequency: "), "[veh/h]")]
        elif l.startswith("-Penalty transfer: "):
            alight = alight + [figure(after(l, "-Penalty transfer: "), "[min]")]
        elif l.startswith("-Route_id: "):
            cur["route"] = after(l, "-Route_id: ")
        elif l.startswith("-Direction: "):
            cur["dir"] = after(l, "-Direction: ")
        elif l.startswith("-Previous stop: "):
            cur["prev"] = after(l, "-Previous stop: ")
        elif l.startswith("-Time to previous stop: "):
            cur["t"] = figure(after(l, "-Time to previous stop: "), "[hrs]")
        else:
            raise Shape(raw)
    if access or board or alight:
        raise Shape("links of nothing")
    return [{"city": c["name"], "mode": s["mode"], "access": s["access"], "lines": s["lines"]} for c in cities for s in c["stops"]], [c["name"] for c in cities]


def parse_graph(t):
    ls = t.split("\n")
    if ls[0] != "HyperPath Graph":
        raise Shape(ls[0])
    res = []
    keys = {"Graph_node_name": "node", "Mode_name": "mode", "route_id": "route", "direction": "dir", "label": "label", "Successor": "suc", "Frequencies": "freq"}
    for raw in ls[1:]:
        l = raw.strip()
        if not l:
            continue
        if l in ("City_node", "Stop_node", "Route_node"):
            res.append({"ty": {"C": "city", "S": "stop", "R": "line"}[l[0]], "mode": "", "route": "", "dir": ""})
            continue
        k, v = after(l, "-").split(":", 1)
        v = v.strip()
        if keys[k] == "suc":
            if EDGE.sub("", v + " ").strip():
                raise Shape(l)
            v = [[m.group(1).split(".")[-1], m.group(2), m.group(3)] for m in EDGE.finditer(v)]
        elif keys[k] in ("label", "freq"):
            v = figure(v)
        res[-1][keys[k]] = v
    return res


def parse_paths(t):
    res = []
    for raw in t.split("\n"):
        l = raw.strip()
        if not l:
            continue
        if l == "New Path:":
            res[-1]["paths"].append([])
            continue
        m = re.fullmatch(r"\[(.*): %s\]" % NUMB, l)
        if m:
            res[-1]["paths"][-1].append({"what": m.group(1), "label": figure(m.group(2))})
        elif l.endswith(" stop"):
            res.append({"mode": l[:-5], "paths": []})
        else:
            raise Shape(l)
    return res


def parse_pairs(t):
    ls = [x.strip() for x in t.split("\n") if x.strip()]
    res = []
    if len(ls) % 2:
        raise Shape(t[:50])
    for a, b in zip(ls[::2], ls[1::2]):
        m = re.fullmatch(r"origin: (.*), destination: (.*), vij: %s" % NUMB, a)
        n = re.fullmatch(r"mode: (.*), label: %s \[EIV\], n. elemental paths: (\d+), n. elemental paths \(successors\): (\d+)" % NUMB, b)
        if not m or not n:
            raise Shape(a + b)
        res.append({"o": m.group(1), "d": m.group(2), "v": figure(m.group(3)), "mode": n.group(1), "label": figure(n.group(2)),
                    "paths": n.group(3), "links": n.group(4)})
    return res


def parse_loads(t):
    ls = t.split("\n")
    if ls[:2] != ["", "Boarding and Alighting information:"]:
        raise Shape(t[:60])
    res, r, kind, dr = [], None, None, None
    for raw in ls[2:]:
        l = raw.strip()
        if l.startswith("New route: "):
            r, kind, dr = l[11:], None, None
        elif l in ("Boarding:", "Alighting:"):
            kind, dr = l[0], None
        elif l.startswith("Direction: "):
            dr = l[11:]
        else:
            m = re.fullmatch(r"Stop (.*): %s\[pax/veh\]" % NUMB, l)
            if not m or None in (r, kind, dr):
                raise Shape(l)
            res.append({"route": r, "kind": kind, "dir": dr, "stop": m.group(1), "x": figure(m.group(2))})
    return res


def listing(ev, op, parse, fn, *a, **extra):
    """call a listing twice and record what it shows"""
    o, t = call(fn, *a)
    e = {"op": op, "outcome": o, **extra}
    if o == "ok":
        o2, t2 = call(fn, *a)
        e["same"] = o2 == "ok" and t2 == t
        try:
            r = parse(t)
            e["rows"] = r[0] if isinstance(r, tuple) else r
            if isinstance(r, tuple):
                e["cities"] = r[1]
        except (Shape, ValueError, KeyError, IndexError, TypeError, AttributeError) as x:
            e["outcome"] = "not_readable"
            e["text"] = t[:400]
    ev.append(e)


def run(d):
    ev = []
    w = build_world(d, ev)
    f = w.fdict(w.fvec(d["f"])) if d.get("f") else w.finis()
    e = inputs(w, f)
    e["names"] = {sid(n.id): str(n.name) for n in w.g.get_nodes()}
    e["mnames"] = {w.tags.tag(m): str(m.name) for m in w.modes}
    ev.append(e)
    eg = P().ExtendedGraph(w.g, w.net.get_routes(), w.pax.pt, f)
    ev.append(extended(w, eg))
    listing(ev, "network_text", parse_network, str, eg)
    h = P().Hyperpath(eg, w.pax)
    cs = list(eg.get_extended_graph_nodes())
    rng = random.Random(d["sh"])
    prs = [(a, b) for a in cs for b in cs if a is not b]
    rng.shuffle(prs)
    for o, t in prs[:d.get("pairs", 2)]:
        out, r = call(h.get_hyperpath_OD, o, t)
        if out != "ok":
            raise ScenarioError("no strategy: %s" % out)
        hp, lab, suc, fr = r
        ab = dict(o=sid(o.graph_node.id), d=sid(t.graph_node.id))
        ev.append(strat_event(w, eg, o, t, suc, lab, fr))
        listing(ev, "strategy_text", parse_graph, h.string_hyperpath_graph, suc, lab, fr, **ab)
        ev.append({"op": "paths", **ab, "outcome": "ok", "stops": [{"s": ekey(s, w), "paths": hp_paths(w, hp[s])} for s in list(hp)]})
        before = [[ekey(s, w), hp_paths(w, hp[s])] for s in list(hp)]
        listing(ev, "paths_text", parse_paths, h.string_hyperpaths_OD, hp, lab, **ab)
        ev.append({"op": "still_paths", **ab, "was": before, "now": [[ekey(s, w), hp_paths(w, hp[s])] for s in list(hp)]})
        ev.append(dict(strat_event(w, eg, o, t, suc, lab, fr), op="still"))
    if not d.get("dem"):
        return ev
    out, opt = call(pipe.O().Optimizer, w.g, w.dem, w.pax, w.net, f)
    if out != "ok":
        raise ScenarioError("no optimiser: %s" % out)
    eg = opt.extended_graph_obj
    ev.append(e)
    ev.append(extended(w, eg))
    ev.extend(pipe.strategies_of(w, opt))
    ev.append(pipe.assign_event(w, opt))
    listing(ev, "pairs_text", parse_pairs, P().Hyperpath.string_all_hyperpaths, opt.hyperpaths, opt.labels, opt.successors, opt.Vij)
    le, tabs = pipe.loading(w, opt, f)
    ev.append(le)
    if tabs:
        listing(ev, "loads_text", parse_loads, P().Assignment.str_boarding_alighting, tabs[0], tabs[1])
    return ev


def gen(rng):
    def make():
        if rng.random() < 0.35:
            d, w = pipe.gen_base(rng, 4)
            d["f"] = pipe.gen_f(rng, 0.35)
        else:
            d = pipe.gen_eval(rng, [], zero=0.0)
            w = pipe.World(d)
        names = [str(n.name) for n in w.g.get_nodes()]
        if len(set(names)) < len(names):
            return None
        d["sh"], d["pairs"] = rng.randint(1, 10 ** 6), 2
        return d
    return until(make, "a transport system", 500)


def C28(c):
    c.judge("TC28", run, [gen(c.rng) for _ in range(4000 if c.thorough() else 240)], limit=120)
