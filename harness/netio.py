"""Projection of real networks and generators of networks."""
from vlib import *
from cityio import *


def N():
    from sidermit.publictransportsystem import network
    return network


def M():
    from sidermit.publictransportsystem import mode
    return mode


RTYPE = {"CUSTOM": "CUSTOM", "PREDEFINED": "PREDEFINED", "CIRCULAR": "CIRCULAR"}


class Tags(dict):
    """identity of mode objects -> stable tag"""

    def tag(self, m):
        return self.setdefault(id(m), "m%d" % len(self)) if not hasattr(m, "name") or id(m) in self else self._new(m)

    def _new(self, m):
        self.keep = getattr(self, "keep", []) + [m]
        self[id(m)] = "m%d" % len(self)
        return self[id(m)]


def sq(s):
    return [sid(x) for x in s]


def proj_route(r, tags):
    return {"id": str(r.id), "mode": tags.tag(r.mode) if r.mode is not None else "None", "type": r._type.name,
            "ni": sq(r.nodes_sequence_i), "nr": sq(r.nodes_sequence_r), "si": sq(r.stops_sequence_i), "sr": sq(r.stops_sequence_r)}


def proj_mode(m, tags):
    return {"name": str(m.name), "tag": tags.tag(m), "d": num(m.d)}


def proj_net(net, tags):
    return {"modes": [proj_mode(m, tags) for m in net.get_modes()], "routes": [proj_route(r, tags) for r in net.get_routes()]}


def city_ev(g):
    return {"op": "city", "edges": [[sid(e.node1.id), sid(e.node2.id)] for e in g.get_edges()],
            "zones": [{"id": int(z.id), "p": sid(z.periphery.id), "sc": sid(z.subcenter.id)} for z in g.get_zones()],
            "cbd": sid(g.get_cbd().id)}


def mkmode(name, d=1, **k):
    a = dict(bya=1, co=8.61, c1=0.15, c2=0, v=20, t=2.5, fmax=150, kmax=160, theta=0.7, tat=0, fini=28)
    a.update(k)
    return M().TransportMode(name, a["bya"], a["co"], a["c1"], a["c2"], a["v"], a["t"], a["fmax"], a["kmax"], a["theta"], a["tat"], d, a["fini"])


def j(q):
    return ",".join(str(x) for x in q)


def walk_on(rng, adj, a, b=None, maxlen=7, tries=60):
    """random simple path in the city from a (to b when given)"""
    for _ in range(tries):
        p = [a]
        L = rng.randint(2, maxlen)
        while len(p) < L:
            nx = [x for x in adj.get(p[-1], []) if x not in p]
            if not nx:
                break
            p.append(rng.choice(nx))
            if b is not None and p[-1] == b and rng.random() < 0.8:
                break
        if b is None and len(p) > 1 or b is not None and p[-1] == b and a != b:
            return p
    return None


def adjacency(g):
    adj = {}
    for e in g.get_edges():
        adj.setdefault(int(e.node1.id), []).append(int(e.node2.id))
    return adj


def gen_custom(rng, g, stops=True):
    """a random well formed custom route: (ni, nr, si, sr) lists of ids"""
    adj = adjacency(g)
    ids = sorted(adj)
    if not ids:
        return None
    for _ in range(40):
        ni = walk_on(rng, adj, rng.choice(ids))
        if not ni:
            continue
        nr = list(reversed(ni)) if rng.random() < 0.4 else walk_on(rng, adj, ni[-1], ni[0])
        if not nr:
            continue
        def st(n):
            if rng.random() < 0.4 or not stops:
                return list(n)
            return [n[0]] + [x for x in n[1:-1] if rng.random() < 0.5] + [n[-1]]
        return ni, nr, st(ni), st(nr)
    return None


FAMILIES = [("circular", 0, 0), ("feeder", 0, 0), ("radial", 0, 0), ("radial", 1, 0), ("radial", 0, 1), ("radial", 1, 1)] + \
           [(f, s, e) for f in ("diametral", "tangencial") for s in (0, 1) for e in (0, 1)]


def family(net, f, mode, jump=1, short=False, express=False):
    if f == "circular":
        return net.get_circular_routes(mode)
    if f == "feeder":
        return net.get_feeder_routes(mode)
    k = {n: v for n, v in (("jump", jump), ("short", short), ("express", express)) if v != {"jump": 1}.get(n, False) or (n == "jump" and not isinstance(v, int))}
    if f == "radial":
        k.pop("jump", None)
        return net.get_radial_routes(mode, **k)
    if f == "diametral":
        return net.get_diametral_routes(mode, **k)
    if len(k) == 3:
        return net.get_tangencial_routes(mode, jump, short, express)
    return net.get_tangencial_routes(mode, **k)
