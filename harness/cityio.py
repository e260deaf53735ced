"""Projection of the real city objects, and generators of city definitions."""
import os, sys
from vlib import REPO, num, nums, sid, call
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")


def G():
    from sidermit.city import graph
    return graph


def olist(xs):
    return ["None"] if xs is None else [num(x) for x in xs]


def kind(node):
    g = G()
    for n, c in (("CBD", g.CBD), ("P", g.Periphery), ("SC", g.Subcenter)):
        if isinstance(node, c):
            return n
    return "?"


def proj_node(n):
    return {"id": sid(n.id), "name": str(n.name), "kind": kind(n), "zone": int(n.zone_id), "x": num(n.x), "y": num(n.y),
            "radius": num(n.radius), "angle": num(n.angle), "width": num(n.width)}


def proj_params(p):
    n, l, g, w, etha, ez, angles, Gi, Hi = p
    return {"n": num(n), "l": num(l), "g": num(g), "p": num(w), "etha": num(etha), "ethaZone": num(ez),
            "angles": olist(angles), "Gi": olist(Gi), "Hi": olist(Hi)}


def proj_city(g, dist=True):
    r = {"nodes": [proj_node(n) for n in g.get_nodes()],
         "zones": [{"id": int(z.id), "p": sid(z.periphery.id), "sc": sid(z.subcenter.id), "pn": proj_node(z.periphery),
                    "scn": proj_node(z.subcenter)} for z in g.get_zones()],
         "edges": [{"id": sid(e.id), "a": sid(e.node1.id), "b": sid(e.node2.id), "an": proj_node(e.node1),
                    "bn": proj_node(e.node2)} for e in g.get_edges()],
         "n": num(g.get_n()), "cbd": sid(g.get_cbd().id) if g.get_cbd() is not None else "None",
         "params": proj_params(g.get_parameters())}
    if dist:
        d = g.get_edges_distance()
        r["dist"] = [{"a": sid(a), "b": sid(b), "d": num(v)} for a in d for b, v in d[a].items()]
    return r


def kw(q):
    """keyword arguments of build_from_parameters from a (JSON) definition"""
    k = {x: q[x] for x in ("n", "l", "g", "p") if x in q}
    for a, b in (("etha", "etha"), ("ethaZone", "etha_zone"), ("angles", "angles"), ("Gi", "Gi"), ("Hi", "Hi")):
        if q.get(a) is not None:
            k[b] = list(q[a]) if isinstance(q[a], list) else q[a]
    return k


def enc_q(q):
    return {**{k: num(q[k]) if k in q else "omitted" for k in ("n", "l", "g", "p")}, "etha": num(q.get("etha")),
            "ethaZone": num(q.get("ethaZone")), "angles": olist(q.get("angles")), "Gi": olist(q.get("Gi")),
            "Hi": olist(q.get("Hi"))}


def build(q):
    return G().Graph.build_from_parameters(**kw(q))


def gen_q(rng, n=None, positive=False, asym=None):
    """a random valid city definition"""
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]) if n is None else n
    lo = 0.1 if positive else 0.0
    q = dict(n=n, l=round(rng.uniform(max(lo, 0.5), 30), rng.choice([0, 1, 3])) or 1, g=round(rng.uniform(lo, 3), 2),
             p=rng.choice([0, 1, 2, 0.5, 3.25]))
    if rng.random() < 0.12:     # all digits, unusual magnitudes
        q["l"] = rng.choice([rng.uniform(0.5, 30), 1 / 3 + 1, 0.004321, 123456.75])
        q["g"], q["p"] = rng.choice([rng.uniform(0.1, 3), 0.123456789]), rng.choice([rng.random(), 0.123456789012, 1e-5, 1234567.125, 1 / 3])
    if rng.random() < 0.15 and not positive:
        q["l"] = 0 if rng.random() < 0.3 else q["l"]
    asym = rng.random() < 0.75 if asym is None else asym
    if n and asym:
        if rng.random() < 0.6:
            q["etha"] = rng.choice([0, 1, round(rng.random(), 3), round(rng.random(), 3)])
            q["ethaZone"] = rng.randint(1, n)
        if rng.random() < 0.6:
            a = sorted(rng.sample(range(0, 361), n)) if n <= 300 else [360 * i / n for i in range(n)]
            if 0 in a and 360 in a:
                a[-1] = 359 if 359 not in a else a[-1]
            if rng.random() < 0.5:
                rng.shuffle(a)
            q["angles"] = [x + rng.choice([0, 0, 0.25]) if x < 359 else x for x in a]
        if rng.random() < 0.6:
            q["Gi"] = [round(rng.uniform(max(lo, 0.0), 2.5), 2) for _ in range(n)]
            if positive:
                q["Gi"] = [max(0.2, x) for x in q["Gi"]]
        if rng.random() < 0.6:
            q["Hi"] = [round(rng.uniform(max(lo, 0.0), 2.5), 2) for _ in range(n)]
            if positive:
                q["Hi"] = [max(0.2, x) for x in q["Hi"]]
    return q
