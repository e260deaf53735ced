"""C08 mode registry, C04 parameter domains."""
import random, itertools
from vlib import *
import cityio
from cityio import *
import walks
from c05 import replay_walks

ARGS = ("name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini")
PARGS = ("va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt")


def M():
    from sidermit.publictransportsystem import mode
    return mode


def mk(name, tag, d=1):
    return M().TransportMode(name, 1, float(tag), 0.15, 0, 20, 2.5, 150, 160, 0.7, 0, d, 28)


def proj_reg(mgr):
    return {"reg": [{"name": str(m.name), "tag": num(m.co), "d": num(m.d)} for m in mgr.get_modes()],
            "names": [str(x) for x in mgr.get_modes_names()]}


def apply(mgr, a, tag):
    op = a["op"]
    if op == "add":
        return call(mgr.add_mode, mk(a["name"], tag, int(a["d"])))
    if op == "remove":
        return call(mgr.remove_mode, a["name"])
    if op == "get":
        return call(mgr.get_mode, a["name"])
    if op == "usable":
        return call(mgr.is_valid_to_assignment_step)
    if op == "addbad":
        return call(mgr.add_mode, a.get("obj", "bus"))


def run_walk(d):
    mgr = M().TransportModeManager(False)
    ev = []
    for i, (a, t) in enumerate(d["walk"]):
        out, v = apply(mgr, a, i + 1)
        ev.append({"a": a, "t": t, "out": out, "s": proj_reg(mgr),
                   "v": v if isinstance(v, bool) else (v.name if hasattr(v, "name") else None)})
    return ev


def cmp_modes(x):
    bad, er = [], x["a"]["err"]
    if (x["out"] != "ok") if not er else (x["out"] not in er):
        bad.append(x["a"]["op"] + "_outcome")
    got = [(r["name"], float(r["d"])) for r in x["s"]["reg"]]
    if got != [(r["name"], float(r["d"])) for r in x["t"]] or x["s"]["names"] != [r["name"] for r in x["t"]]:
        bad.append("registry")
    if not er and x["a"]["op"] == "get" and x["v"] != x["a"]["name"]:
        bad.append("lookup")
    if not er and x["a"]["op"] == "usable" and x["v"] is not True:
        bad.append("usable_answer")
    return bad


def run_session(d):
    rng = random.Random(d["seed"])
    mgr = M().TransportModeManager() if d["default"] is None else M().TransportModeManager(d["default"])
    p = proj_reg(mgr)
    exp = [] if d["default"] is False else [{"name": "bus", "tag": num(8.61), "d": "4"}, {"name": "metro", "tag": num(80.91), "d": "1"}]
    ev = [dict({"op": "new", "expect": exp}, **p)]
    other = M().TransportModeManager()
    names = ["bus", "metro", "tram", "x", "Bus"]
    for i in range(d["k"]):
        op = rng.choice(["add", "add", "add", "remove", "remove", "get", "usable", "usable", "addbad"])
        a = {"op": op, "name": rng.choice(names), "d": rng.choice([1, 1, 2, 4, 10, 57])}
        if op == "addbad":
            a["obj"] = rng.choice([None, "bus", 3])
        out, v = apply(mgr, a, i + 1)
        ev.append(dict({"op": op, "name": a["name"], "d": num(a["d"]), "outcome": out,
                        "tag": num(v.co) if op == "get" and out == "ok" else num(float(i + 1)), "ans": v is True}, **proj_reg(mgr)))
        if rng.random() < 0.2:
            apply(other, {"op": rng.choice(["remove", "add"]), "name": rng.choice(names), "d": 1}, 99)
    return ev


def C08(c):
    lines = c.add_model("MModes")
    wl, n = walks.cover(lines, [], 60, c.rng if c.thorough() else None)
    c.extra["transitions_of_model"] = n
    replay_walks(c, run_walk, wl, cmp_modes)
    rng = c.rng
    ds = [{"seed": rng.random(), "default": rng.choice([None, True, False]), "k": rng.choice([10, 20, 40])}
          for _ in range(3000 if c.thorough() else 250)]
    c.judge("TC08", run_session, ds)


# ------------------------------------------------------------------ C04
OKMODE = dict(name="bus", bya=1, co=8.61, c1=0.15, c2=3, v=20, t=2.5, fmax=150, kmax=160, theta=0.7, tat=1, d=2, fini=28)
OKPAX = dict(va=4.0, pv=2.74, pw=5.48, pa=8.22, pt=16, spv=2.74, spw=5.48, spa=8.22, spt=16)
VALS = [None, -1, -0.001, -1e-9, 0, 1e-9, 0.5, 1, 1.0000001, 2, 1000, "x"]


def encq(q, keys):
    return {k: ("None" if q[k] is None else str(q[k]) if k == "name" else num(q[k])) for k in keys}


def mode_event(q):
    o, m = call(lambda: M().TransportMode(*[q[k] for k in ARGS]))
    return {"op": "mode", "q": encq(q, ARGS), "outcome": o, "r": encq({k: getattr(m, k) for k in ARGS}, ARGS) if o == "ok" else {}}


def pax_event(q):
    from sidermit.publictransportsystem.passenger import Passenger
    o, m = call(lambda: Passenger(*[q[k] for k in PARGS]))
    return {"op": "passenger", "q": encq(q, PARGS), "outcome": o, "r": encq({k: getattr(m, k) for k in PARGS}, PARGS) if o == "ok" else {}}


def set_event(what, k, v):
    from sidermit.publictransportsystem.passenger import Passenger
    keys = ARGS if what == "mode" else PARGS
    m = M().TransportMode(*[OKMODE[x] for x in ARGS]) if what == "mode" else Passenger(*[OKPAX[x] for x in PARGS])
    before = encq({x: getattr(m, x) for x in keys}, keys)
    o, _ = call(setattr, m, k, v)
    return {"op": "set", "what": what, "k": k, "v": "None" if v is None else (str(v) if k == "name" else num(v)), "outcome": o,
            "before": before, "after": encq({x: getattr(m, x) for x in keys}, keys)}


def city_event(q):
    o, g = call(build, q)
    o2, _ = call(lambda: cityio.G().Graph.parameters_validator(**kw(q)))
    return {"op": "city", "q": enc_q(q), "outcome": o, "validator": o2, "r": proj_params(g.get_parameters()) if o == "ok" else {}}


def node_event(kd, a):
    cls = {"CBD": G().CBD, "P": G().Periphery, "SC": G().Subcenter, "N": G().Node}[kd]
    o, n = call(lambda: cls(a["id"], a["x"], a["y"], a["radius"], a["angle"], a["width"], a["zone"], a["name"]))
    f = lambda z: "None" if z is None else (z if isinstance(z, str) else num(z))
    q = {k: f(v) for k, v in a.items()}
    q["kind"] = kd
    return {"op": "node", "q": q, "outcome": o,
            "r": {k: f(v) for k, v in dict(id=n.id, x=n.x, y=n.y, radius=n.radius, angle=n.angle, width=n.width, zone=n.zone_id, name=n.name).items()} if o == "ok" else {}}


def anode(kd, zone, i=1):
    return {"CBD": G().CBD, "P": G().Periphery, "SC": G().Subcenter}[kd](i, 1, 1, 1.5, 45, 1, 0 if kd == "CBD" else zone, "n%d" % i)


def zone_event(zone, k1, z1, k2, z2):
    o, z = call(lambda: G().Zone(zone, anode(k1, z1, 1), anode(k2, z2, 2)))
    return {"op": "zone", "q": {"zone": num(zone), "k1": k1, "k2": k2, "z1": num(0 if k1 == "CBD" else z1), "z2": num(0 if k2 == "CBD" else z2)}, "outcome": o}


def edge_event(i, k1, k2):
    o, z = call(lambda: G().Edge(i, anode(k1, 1, 1), anode(k2, 2, 2)))
    return {"op": "edge", "q": {"id": num(i), "k1": k1, "k2": k2}, "outcome": o}


def defaults_event(how):
    from sidermit.publictransportsystem.passenger import Passenger
    ms = M().TransportMode.get_default_modes() if how == 0 else M().TransportModeManager().get_modes() if how == 1 else M().TransportModeManager(True).get_modes()
    x = Passenger.get_default_passenger()
    e = {"op": "defaults", "modes": [encq({k: getattr(m, k) for k in ARGS}, ARGS) for m in ms], "pax": encq({k: getattr(x, k) for k in PARGS}, PARGS)}
    for m in ms:                    # the next defaults are the defaults again
        m.d, m.v, m.fmax = 3, 17.5, 11
    x.va, x.pt = 1.5, 3
    return e


EV = {"defaults": defaults_event, "mode": mode_event, "passenger": pax_event, "set": set_event, "city": city_event, "node": node_event, "zone": zone_event, "edge": edge_event}


def run_domains(d):
    return [EV[a[0]](*a[1:]) for a in d["acts"]]


def C04(c):
    rng = c.rng
    acts = []
    # one attribute at a time through every boundary, by construction and by assignment
    for k in ARGS:
        for v in VALS:
            acts.append(("mode", dict(OKMODE, **{k: v})))
            acts.append(("mode", dict(OKMODE, **{k: v, "d": 0} if k != "d" else {k: v})))
            acts.append(("set", "mode", k, v))
    for k in PARGS:
        for v in VALS:
            acts.append(("passenger", dict(OKPAX, **{k: v})))
            acts.append(("set", "passenger", k, v))
    # pairs of attributes at/outside the boundary
    for k1, k2 in itertools.combinations(ARGS, 2):
        for v1, v2 in (((-1, -1), (None, -1), (-1, 2)) if not c.thorough() else itertools.product(VALS[:6], VALS[:10])):
            acts.append(("mode", dict(OKMODE, **{k1: v1, k2: v2})))
    if c.thorough():
        for k1, k2 in itertools.combinations(PARGS, 2):
            for v1, v2 in itertools.product(VALS[:6], VALS[:10]):
                acts.append(("passenger", dict(OKPAX, **{k1: v1, k2: v2})))
    for _ in range(4000 if c.thorough() else 300):
        q = {k: rng.choice([rng.choice(VALS), round(rng.uniform(0, 1), 3), OKMODE[k]]) if rng.random() < 0.15 else
             (OKMODE[k] if k in ("name", "bya") else round(rng.uniform(0.01, 1 if k == "theta" else 50), 3)) for k in ARGS}
        acts.append(("mode", q))
        acts.append(("passenger", {k: rng.choice(VALS) if rng.random() < 0.1 else round(rng.uniform(0.01, 9), 3) for k in PARGS}))
    # city parameters
    base = dict(n=3, l=10, g=0.5, p=2)
    for k in ("n", "l", "g", "p"):
        for v in [None, -1, -0.001, 0, 0.5, 1, 2, 2.0, 1e-9, "3"]:
            acts.append(("city", dict(base, **{k: v})))
            acts.append(("city", dict(base, etha=0.5, ethaZone=1, **{k: v}) if k != "p" else dict(base, p=v, angles=[0, 90, 180])))
    for e in [None, -0.01, 0, 0.5, 1, 1.01, "x"]:
        for z in [None, -1, 0, 1, 2, 3, 4, 1.5, 1.0]:
            acts.append(("city", dict(base, etha=e, ethaZone=z)))
    for nm, vals in (("angles", [-0.01, 0, 90, 360, 360.01, None]), ("Gi", [-0.01, 0, 1, 2.5, None]), ("Hi", [-0.01, 0, 1, 2.5, None])):
        for ln in range(0, 5):
            acts.append(("city", dict(base, **{nm: [1] * ln})))
        for i in range(3):
            for v in vals:
                x = [1, 1, 1]; x[i] = v
                acts.append(("city", dict(base, **{nm: x})))
        acts.append(("city", dict(base, n=0, **{nm: []})))
        acts.append(("city", dict(base, n=0, **{nm: [1]})))
    for _ in range(3000 if c.thorough() else 250):
        q = gen_q(rng)
        if rng.random() < 0.5:
            k = rng.choice(list(q))
            if isinstance(q[k], list) and q[k]:
                i = rng.randrange(len(q[k])); q[k] = list(q[k])
                if rng.random() < 0.5: q[k][i] = rng.choice([-1, -0.001, 361, 400])
                else: q[k] = q[k][:-1] if rng.random() < 0.5 else q[k] + [1]
            else:
                q[k] = rng.choice([None, -1, 1.5, 2, 99])
        if rng.random() < 0.3:
            q[rng.choice(["Gi", "Hi", "angles"])] = [rng.choice([0, 1, 5, 359, 360, -2, 361]) for _ in range(rng.randint(0, 5))]
        acts.append(("city", q))
    # parameters left out
    for how in (0, 1, 2, 0, 2, 1):
        acts.append(("defaults", how))
    for m in range(16):
        for b2 in (base, dict(n=1, l=0, g=1.5, p=0), dict(n=2, l=3, g=0, p=1, etha=0.25, ethaZone=2), dict(n=2, l=-1, g=1, p=1, angles=[0, 90], Gi=[1, 2])):
            acts.append(("city", {k: v for k, v in b2.items() if k not in "nlgp" or not m >> "nlgp".index(k) & 1}))
    # nodes, zones, links
    nb = dict(id=3, x=1, y=2, radius=5, angle=10, width=2, zone=1, name="N")
    for kd in ("CBD", "P", "SC", "N"):
        b = dict(nb, zone=0) if kd == "CBD" else nb
        acts.append(("node", kd, b))
        for k, vs in (("id", [None, 0, 7]), ("name", [None, "q", ""]), ("zone", [None, 0, 1, 2]), ("radius", [-1, -0.01, 0, 3]),
                      ("angle", [-0.01, 0, 359.9, 360, 360.01]), ("width", [-1, -0.01, 0, 0.5])):
            for v in vs:
                acts.append(("node", kd, dict(b, **{k: v})))
                acts.append(("node", kd, dict(b, **{k: v, "radius": -1})))
    kinds = ("CBD", "P", "SC")
    for zone in (None, -1, 0, 1, 2):
        for k1 in kinds:
            for k2 in kinds:
                for z1 in (-1, 0, 1, 2):
                    for z2 in (-1, 0, 1, 2):
                        acts.append(("zone", zone, k1, z1, k2, z2))
    for i in (None, 0, 1, 5):
        for k1 in kinds:
            for k2 in kinds:
                if (k1, k2) != ("CBD", "CBD"):
                    acts.append(("edge", i, k1, k2))
    ds = [{"acts": acts[i:i + 40]} for i in range(0, len(acts), 40)]
    c.extra["cases"] = len(acts)
    c.judge("TC04", run_domains, ds)
