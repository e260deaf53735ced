"""C29: pictures of cities, networks and paths."""
import os, random, tempfile
from vlib import *
from netio import *
from cityio import proj_city, kind, sid, gen_q
import pipe, walks
from pipe import P, ekey, enodes, hp_paths, build_world


class Sheet:
    """what lies on the drawing sheet at the moment it is saved or shown"""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        self.plt, self.fig, self.taken, self.render = plt, Figure, [], False
        self.old = Figure.savefig, plt.show, Figure.show
        me = self

        def savefig(fig, fname, *a, **k):
            me.taken.append(dict(me.look(fig), file=os.path.abspath(str(fname))))
            if me.render:
                me.old[0](fig, fname, *a, **k)

        def show(*a, **k):
            for f in me.plt.get_fignums():
                if me.plt.figure(f) is me.plt.gcf() or len(me.plt.get_fignums()) == 1:
                    me.taken.append(dict(me.look(me.plt.figure(f)), file=""))

        Figure.savefig, plt.show = savefig, lambda *a, **k: me.taken.append(dict(me.look(me.plt.gcf()), file=""))
        Figure.show = lambda fig, *a, **k: me.taken.append(dict(me.look(fig), file=""))
        plt.close("all")
        return self

    def __exit__(self, *a):
        self.fig.savefig, self.plt.show, self.fig.show = self.old
        self.plt.close("all")

    def look(self, fig):
        from matplotlib.colors import to_rgba
        from matplotlib.patches import FancyArrowPatch
        from matplotlib.collections import PathCollection
        col = lambda c: "%02x%02x%02x%02x" % tuple(int(round(255 * v)) for v in to_rgba(c))
        at = lambda p: {"x": num(float(p[0])), "y": num(float(p[1]))}
        marks, texts, arrows = [], [], []
        for ax in fig.axes:
            def shown(a):
                return a.get_visible() and (a.get_alpha() is None or isinstance(a.get_alpha(), (list, tuple)) or a.get_alpha() > 0)
            for c in ax.collections:
                if not shown(c):
                    continue
                if isinstance(c, PathCollection):
                    cs, sz = c.get_facecolors(), c.get_sizes()
                    for i, p in enumerate(c.get_offsets()):
                        if len(cs) and len(sz) and sz[i % len(sz)] > 0:
                            marks.append(dict(at(p), c=col(cs[i % len(cs)])))
                else:
                    marks.append({"x": "0", "y": "0", "c": "unknown-" + type(c).__name__})
            for t in ax.texts:
                if shown(t) and t.get_text():
                    texts.append(dict(at(t.get_position()), text=t.get_text()))
            for p in ax.patches:
                if isinstance(p, FancyArrowPatch) and shown(p):
                    a, b = p._posA_posB
                    arrows.append({"from": at(a), "to": at(b), "c": col(p.get_edgecolor())})
            marks.extend({"x": "0", "y": "0", "c": "unknown-line"} for l in ax.lines if shown(l) and len(l.get_xydata()))
        a = fig.axes[0] if len(fig.axes) == 1 else None
        return {"marks": marks, "captions": texts, "arrows": arrows, "sheets": len(fig.axes),
                "axes": [a.get_xlabel(), a.get_ylabel()] if a else [], "titled": bool(a and a.get_title()), "scaled": bool(a and a.get_aspect() in (1, "equal"))}

    def take(self, e, state, fn, *a, path="", **k):
        """one picture; -> the event"""
        self.taken = []
        was = state()
        e["outcome"], _ = call(fn, *a, **k)
        e["made"] = bool(self.taken)
        t = self.taken[-1] if self.taken else {"marks": [], "captions": [], "arrows": [], "file": "", "sheets": 0, "axes": [], "titled": False, "scaled": False}
        e["there"] = bool(path) and bool(self.taken) and t["file"] == os.path.abspath(path) and (not self.render or os.path.exists(path))
        e.update({x: t[x] for x in ("marks", "captions", "arrows", "sheets", "axes", "titled", "scaled")})
        e["unchanged"] = state() == was
        return e


def called(n):
    p = P()
    if isinstance(n, p.CityNode):
        return {"ty": "city", "name": str(n.graph_node.name)}
    if isinstance(n, p.StopNode):
        return {"ty": "stop", "name": "%s - %s" % (n.mode.name, n.city_node.graph_node.name)}
    return {"ty": "line", "name": "%s %s - %s" % (n.route.id, n.direction, n.stop_node.city_node.graph_node.name)}


def run(d):
    if "routes" in d:
        w = build_world(d, [])
        g, net, tags = w.g, w.net, w.tags
    else:
        g = pipe.city_of(d)
        net, tags, w = N().TransportNetwork(g), Tags(), None
    rng = random.Random(d["sh"])
    city = lambda: proj_city(g)
    both = lambda: (proj_city(g), proj_net(net, tags))
    base = {"nodes": [{"id": sid(n.id), "k": kind(n), "x": num(n.x), "y": num(n.y)} for n in g.get_nodes()],
            "links": [[sid(e.node1.id), sid(e.node2.id)] for e in g.get_edges()]}
    routes = [{"id": str(r.id), "ni": [sid(x) for x in r.nodes_sequence_i], "nr": [sid(x) for x in r.nodes_sequence_r],
               "si": [sid(x) for x in r.stops_sequence_i], "sr": [sid(x) for x in r.stops_sequence_r]} for r in net.get_routes()]
    ids = [r["id"] for r in routes]
    ev = []
    eg = None
    with tempfile.TemporaryDirectory(dir=d.get("tmp")) as tmp, Sheet() as s:
        for k, what in enumerate(d["plots"]):
            f = os.path.join(tmp, "p%d.png" % k)
            s.render = what.get("render", False)
            if what["of"] == "city":
                ev.append(s.take(dict(base, op="picture", routes=[], all=True, chosen=[], dir="both"), city, g.plot, f, path=f))
            elif what["of"] == "other":     # a picture of another city before, with other places
                o = pipe.city_of(what["city"])
                b = {"nodes": [{"id": sid(n.id), "k": kind(n), "x": num(n.x), "y": num(n.y)} for n in o.get_nodes()],
                     "links": [[sid(e.node1.id), sid(e.node2.id)] for e in o.get_edges()]}
                ev.append(s.take(dict(b, op="picture", routes=[], all=True, chosen=[], dir="both"), lambda: proj_city(o), o.plot, f, path=f))
            elif what["of"] == "network":
                e = dict(base, op="picture", routes=routes, dir=what["dir"])
                dr = None if what["dir"] == "both" else what["dir"]
                if what["pick"] is None:
                    e.update(all=True, chosen=[])
                    args = () if dr is None else (None, dr)
                else:
                    l = [ids[i % len(ids)] for i in what["pick"]] if ids else []
                    if what.get("unknown"):
                        l.insert(rng.randint(0, len(l)), what["unknown"])
                    e.update(all=False, chosen=list(l))
                    args = (l,) if dr is None else (l, dr)
                ev.append(s.take(e, both, net.plot, f, *args, path=f))
            elif w is not None:
                if eg is None:
                    eg = P().ExtendedGraph(g, net.get_routes(), w.pax.pt, w.fdict(w.fvec(d["f"])))
                    h = P().Hyperpath(eg, w.pax)
                    cs = list(eg.get_extended_graph_nodes())
                    prs = [(a, b) for a in cs for b in cs if a is not b]
                    rng.shuffle(prs)
                a, b = prs[k % len(prs)]
                out, r = call(h.get_hyperpath_OD, a, b)
                if out != "ok":
                    raise ScenarioError("no strategy: %s" % out)
                hp = r[0]
                look = lambda: [[ekey(x, w), hp_paths(w, hp[x])] for x in list(hp)]
                e = {"op": "paths_picture", "paths": [[called(n) for n in p] for x in list(hp) for p in hp[x]]}
                ev.append(s.take(e, look, h.plot, hp))
    return ev


def run_walk(d):
    """a sequence of requests and edits of the model on one live network"""
    w = build_world(d["world"], [])
    g, net, tags = w.g, w.net, w.tags
    o = pipe.city_of(d["other"])
    spare = dict(zip("ABC", net.get_routes()))
    for l, r in spare.items():
        if l == "C":
            net.remove_route(r.id)
    describe = lambda x: {"nodes": [{"id": sid(n.id), "k": kind(n), "x": num(n.x), "y": num(n.y)} for n in x.get_nodes()],
                          "links": [[sid(e.node1.id), sid(e.node2.id)] for e in x.get_edges()]}
    one, two = describe(g), describe(o)
    eg = P().ExtendedGraph(g, list(spare.values()), w.pax.pt, w.finis())
    h = P().Hyperpath(eg, w.pax)
    cs = list(eg.get_extended_graph_nodes())
    rng = random.Random(d["sh"])
    prs = [(a, b) for a in cs for b in cs if a is not b]
    rng.shuffle(prs)
    hps = [h.get_hyperpath_OD(a, b)[0] for a, b in prs[:3]]
    ev = []
    with Sheet() as s:
        for k, (of, what, dr) in enumerate(d["walk"]):
            f = "/nowhere/p%d.png" % k
            if of == "edit":
                r = spare[what[0]]
                if r in net.get_routes():
                    net.remove_route(r.id)
                else:
                    net.add_route(r)
            elif of == "paths":
                hp = hps[(what[0] - 1) % len(hps)]
                look = lambda: [[ekey(x, w), hp_paths(w, hp[x])] for x in list(hp)]
                ev.append(s.take({"op": "paths_picture", "paths": [[called(n) for n in p] for x in list(hp) for p in hp[x]]}, look, h.plot, hp))
            elif of in ("city", "other"):
                x = g if of == "city" else o
                ev.append(s.take(dict(one if of == "city" else two, op="picture", routes=[], all=True, chosen=[], dir="both"), lambda: proj_city(x), x.plot, f, path=f))
            else:
                rs = [{"id": str(r.id), "ni": [sid(x) for x in r.nodes_sequence_i], "nr": [sid(x) for x in r.nodes_sequence_r],
                       "si": [sid(x) for x in r.stops_sequence_i], "sr": [sid(x) for x in r.stops_sequence_r]} for r in net.get_routes()]
                pick = [spare[l].id for l in sorted(what[1])]
                rng.shuffle(pick)
                e = dict(one, op="picture", routes=rs, dir=dr, all=what[0] == "all", chosen=list(pick))
                ev.append(s.take(e, lambda: (proj_city(g), proj_net(net, tags)), net.plot, f, None if what[0] == "all" else pick,
                                 None if dr == "both" else dr, path=f))
    return ev


def gen_walked(rng):
    """a network of three lines"""
    def make():
        d, w = pipe.gen_base(rng, rng.choice([2, 3]))
        names = [str(n.name) for n in w.g.get_nodes()]
        if len(set(names)) < len(names) or len(w.rids) < 3 or any(len(r["seq"][0]) > 9 for r in d["routes"] if "seq" in r):
            return None
        d["keep"] = 3
        return d
    return until(make, "a city to draw", 500)


def gen(rng):
    def make():
        r = rng.random()
        if r < 0.06:
            d = {"q": gen_q(rng, 0)}
        elif r < 0.2:
            d = pipe.gen_city(rng, rng.choice([2, 3, 5, 8, 12]))
        else:
            d, w = pipe.gen_base(rng, rng.choice([1, 2, 3, 4, 6]))
            d["f"] = pipe.gen_f(rng, 0.2)
            names = [str(n.name) for n in w.g.get_nodes()]
            if len(set(names)) < len(names):
                return None
        if call(pipe.city_of, d)[0] != "ok":
            return None
        plots = []
        for _ in range(rng.randint(2, 5)):
            of = rng.choice(["city", "network", "network", "network", "paths", "paths", "other"])
            x = {"of": of}
            if of == "other":
                x["city"] = pipe.gen_city(rng, 3)
                if call(pipe.city_of, x["city"])[0] != "ok":
                    x = {"of": "city"}
            if of == "network":
                x["dir"] = rng.choice(["both", "both", "I", "R"])
                x["pick"] = rng.choice([None, [], [0], [rng.randrange(99) for _ in range(rng.randint(1, 4))], [rng.randrange(99) for _ in range(2)]])
                if x["pick"] is not None and rng.random() < 0.2:
                    x["unknown"] = rng.choice(["nowhere", "", "0", "R"])
            if rng.random() < 0.06:
                x["render"] = True
            plots.append(x)
        d["plots"], d["sh"] = plots, rng.randint(1, 10 ** 6)
        return d
    return until(make, "a city to draw", 500)


def C29(c):
    lines = c.add_model("MPicture")
    wl, n = walks.cover(lines, {"net": ["A", "B"], "last": ["", [], ""]}, 60, c.rng)
    small = lambda: until(lambda: (lambda x: x if call(pipe.city_of, x)[0] == "ok" else None)(pipe.gen_city(c.rng, 2)), "another city", 100)
    k = [(gen_walked(c.rng), small()) for _ in range(12 if c.thorough() else 6)]
    c.judge("TC29", run_walk, [{"world": k[i % len(k)][0], "other": k[i % len(k)][1], "sh": i, "walk": [a for a, _ in w]} for i, w in enumerate(wl)], limit=120)
    c.extra["transitions_replayed_on_impl"] = n
    c.judge("TC29", run, [gen(c.rng) for _ in range(2700 if c.thorough() else 220)], limit=120)
