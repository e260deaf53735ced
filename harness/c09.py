"""C09 network registry, C10 custom routes, C11 predefined families, C12 route export."""
import random, itertools, os
from vlib import *
import walks
from netio import *
from c05 import replay_walks, text_cities


class Ctx:
    def __init__(self, g):
        self.g, self.tags = g, Tags()
        self.net = N().TransportNetwork(g)

    def add_route(self, r):
        return call(self.net.add_route, r)


# ---------------------------------------------------------------- C09: replay of the model
MSPEC = {"a": ("a", 1), "b": ("b", 2), "c": ("c", 2), "x": ("a", 1)}


def run_walk(d):
    g = G().Graph.build_from_parameters(2, 10, 0.5, 2)
    net = N().TransportNetwork(g)
    mode = {t: mkmode(nm, dd) for t, (nm, dd) in MSPEC.items()}
    tag = {id(m): t for t, m in mode.items()}
    ev = []
    for a, t in d["walk"]:
        op, x = a["op"], a["x"]
        v = None
        if op == "addmode": out, _ = call(net.add_transport_mode, mode[x])
        elif op == "removemode": out, _ = call(net.remove_transport_mode, mode[x])
        elif op == "addroute": out, _ = call(net.add_route, N().Route(x["id"], mode[x["mode"]], j(x["ni"]), j(x["nr"]), j(x["si"]), j(x["sr"])))
        elif op == "removeroute": out, _ = call(net.remove_route, x)
        elif op == "getroute":
            out, v = call(net.get_route, x); v = None if v is None else v.id
        elif op == "addbad": out, _ = call(net.add_route, "r1")
        else: out, _ = call(net.add_transport_mode, None)
        ev.append({"a": a, "t": t, "out": out, "v": v,
                   "s": {"modes": [tag.get(id(m), "?") for m in net.get_modes()], "routes": [[r.id, tag.get(id(r.mode), "?")] for r in net.get_routes()]}})
    return ev


def cmp_net(x):
    bad, er = [], x["a"]["err"]
    if (x["out"] != "ok") if not er else (x["out"] not in er):
        bad.append(x["a"]["op"] + "_outcome")
    if x["s"] != x["t"]:
        bad.append("registry_after_" + x["a"]["op"])
    if not er and x["a"]["op"] == "getroute" and x["v"] != x["a"]["x"]:
        bad.append("lookup")
    return bad


def break_path(rng, p, ids):
    """make one link of the path (probably) inexistent"""
    p = list(p)
    i = rng.randrange(len(p))
    c = [x for x in ids if x not in p]
    if c:
        p[i] = rng.choice(c)
    return p


def run_session(d):
    rng = random.Random(d["seed"])
    g = build(d["q"]) if "q" in d else G().Graph.build_from_content(d["base"])
    net = N().TransportNetwork(g); tags = Tags()
    other = N().TransportNetwork(g)
    ev = [city_ev(g)]
    modes = [mkmode(nm, dd) for nm, dd in (("a", 1), ("b", 2), ("c", 4), ("a", 1), ("bus", 1))]
    ids = [int(n.id) for n in g.get_nodes()]
    for m in modes:
        tags.tag(m)
    rid = 0
    st = lambda **k: ev.append(dict(k, **proj_net(net, tags)))
    for _ in range(d["k"]):
        op = rng.choice(["addmode", "addmode", "removemode", "addroute", "addroute", "addroute", "family", "addbadroute", "addbadroute", "removeroute", "getroute", "bad"])
        m = rng.choice(modes)
        if op == "addmode":
            o, _ = call(net.add_transport_mode, m); st(op=op, m=proj_mode(m, tags), outcome=o)
        elif op == "removemode":
            if rng.random() < 0.6: continue
            o, _ = call(net.remove_transport_mode, m); st(op=op, m=proj_mode(m, tags), outcome=o)
        elif op in ("addroute", "addbadroute"):
            c = gen_custom(rng, g)
            if c is None: continue
            ni, nr, si, sr = c
            if op == "addbadroute":
                # both directions must still form a cycle, only inner nodes (or the common ends) change
                k = rng.choice(["i", "r", "b"])
                bi = [ni[0]] + break_path(rng, ni[1:-1], ids) + [ni[-1]] if len(ni) > 2 else ni
                br = [nr[0]] + break_path(rng, nr[1:-1], ids) + [nr[-1]] if len(nr) > 2 else nr
                if rng.random() < 0.3 and len(ni) > 2: bi = [ni[0], ni[-1]]
                if rng.random() < 0.3 and len(nr) > 2: br = [nr[0], nr[-1]]
                if k in "ib": ni = bi; si = [x for x in si if x in ni]
                if k in "rb": nr = br; sr = [x for x in sr if x in nr]
            name = rng.choice(["r%d" % rid, "r%d" % rid, "r%d" % rid, "r%d" % rng.randint(0, max(1, rid))])
            o, r = call(N().Route, name, m, j(ni), j(nr), j(si), j(sr))
            if o != "ok": continue
            rid += 1
            pr = proj_route(r, tags)
            o, _ = call(net.add_route, r); st(op="addroute", r=pr, m=proj_mode(m, tags), outcome=o)
        elif op == "family":
            f, s, e = rng.choice(FAMILIES)
            o, rs = call(family, net, f, m, rng.randint(1, max(1, len(g.get_zones()) // 2)), bool(s), bool(e))
            if o != "ok": continue
            for r in rs:
                pr = proj_route(r, tags)
                o, _ = call(net.add_route, r); st(op="addroute", r=pr, m=proj_mode(m, tags), outcome=o)
                if rng.random() < 0.3: call(other.add_route, r)
        elif op in ("removeroute", "getroute"):
            have = [r.id for r in net.get_routes()]
            i = rng.choice(have) if have and rng.random() < 0.7 else rng.choice(["zz", "r0", "r1", "R_a_1"])
            if op == "removeroute":
                o, _ = call(net.remove_route, i); st(op=op, id=str(i), outcome=o)
            else:
                o, r = call(net.get_route, i)
                st(op=op, id=str(i), outcome=o, got=proj_route(r, tags) if o == "ok" else {})
        else:
            o, _ = call(net.add_route, rng.choice([None, "r1", 3])); st(op="addbad", outcome=o)
            o, _ = call(net.add_transport_mode, rng.choice([None, "bus", 3])); st(op="addbadmode", outcome=o)
    return ev


def gen_city(rng, positive=True, lo=1):
    if rng.random() < 0.2:
        return {"base": text_cities(rng, 1)[0]}
    return {"q": gen_q(rng, n=rng.choice([x for x in (0, 1, 2, 3, 4, 5, 6) if x >= lo]), positive=positive)}


def C09(c):
    lines = c.add_model("MLines", "MLinesBig" if c.thorough() else "MLines", workers=8)
    wl, n = walks.cover(lines, {"modes": [], "routes": []}, 80, c.rng if c.thorough() else None)
    c.extra["transitions_of_model"] = n
    replay_walks(c, run_walk, wl, cmp_net)
    rng = c.rng
    ds = [dict(gen_city(rng, lo=0), seed=rng.random(), k=rng.choice([15, 30, 60])) for _ in range(2500 if c.thorough() else 220)]
    c.judge("TC09", run_session, ds)


# ---------------------------------------------------------------- C10
def one_route(ni, nr, si, sr, rid="r", mode="ok", raw=None):
    m = mkmode("bus")
    tags = Tags(); t = tags.tag(m)
    mm = {"ok": m, "none": None, "str": "bus"}[mode]
    o, r = call(N().Route, rid, mm, *(raw if raw else [j(x) for x in (ni, nr, si, sr)]))
    return {"op": "route", "ni": sq(ni), "nr": sq(nr), "si": sq(si), "sr": sq(sr), "id": str(rid), "mode": t, "hasId": rid is not None,
            "hasMode": mode == "ok", "outcome": o, "r": proj_route(r, tags) if o == "ok" else {}}


def text_event(t):
    R = N().Route
    o, l = call(R.sequences_to_list, t)
    b = "?"
    if o == "ok":
        o2, b = call(R.sequences_to_string, l)
        b = b if o2 == "ok" else o2
    return {"op": "text", "text": t, "outcome": o, "list": [str(x) for x in l] if o == "ok" else [], "back": str(b),
            "canon": ",".join(str(int(x)) for x in t.split(",")) if o == "ok" and t else ""}


def run_routes(d):
    ev = []
    for a in d["acts"]:
        ev.append(text_event(a[1]) if a[0] == "text" else one_route(*a[1:]))
    return ev


def run_emitted(d):
    ev = []
    for ni, nr, si, sr, er, op in d["cases"]:
        o, r = call(N().Route, "r", mkmode("bus"), j(ni), j(nr), j(si), j(sr))
        got = [sq(r.nodes_sequence_i), sq(r.nodes_sequence_r), sq(r.stops_sequence_i), sq(r.stops_sequence_r)] if o == "ok" else None
        bad = []
        if er and o == "ok": bad.append("malformed_accepted")
        elif er and o not in er: bad.append("documented_error")
        elif not er and not op and o != "ok": bad.append("wellformed_rejected")
        if got and got != [ni, nr, si, sr]: bad.append("reported_sequences")
        ev.append(bad)
    return [{"op": "verdicts", "bad": ev}]


def C10(c):
    lines = c.add_model("MRoute", "MRouteBig" if c.thorough() else "MRoute", workers=8)
    chunks = [lines[i:i + 400] for i in range(0, len(lines), 400)]
    evs = pmap(run_emitted, [{"cases": x} for x in chunks])
    for ch, e in zip(chunks, evs):
        if e[0]["op"] in ("timeout", "unrecordable"):
            c.viol.append((["timeout"], {"cases": ch}, e, "replay")); continue
        for x, bad in zip(ch, e[0]["bad"]):
            if bad:
                c.viol.append((bad, {"route": x}, x, "replay of the model"))
    c.traces += len(lines); c.events += len(lines)
    c.extra["route_definitions_replayed_on_impl"] = len(lines)
    rng = c.rng
    acts = []
    for t in ["", "1", "1,2", "10,2,33", "1,,2", "a,b", "1, 2", " 1,2", "1,2\n", "-1,2", "1.5,2", ",", "1,2,", "0", "007,1", "1;2", "x"]:
        acts.append(("text", t))
    for _ in range(3000 if c.thorough() else 300):
        acts.append(("text", ",".join(str(rng.randint(0, 120)) for _ in range(rng.randint(1, 9)))))
    for rid in (None, "r", "", 5):
        for mode in ("ok", "none", "str"):
            acts.append(("r", [1, 2], [2, 1], [1, 2], [2, 1], rid, mode))
            acts.append(("r", [1, 2], [2, 3], [1, 2], [2, 1], rid, mode))
            acts.append(("r", [1, 2], [], [1, 2], [2, 1], rid, mode))
    # None sequences
    for k in range(4):
        q = [[1, 2], [2, 1], [1, 2], [2, 1]]
        raw = [j(x) for x in q]; raw[k] = None; q[k] = []
        acts.append(tuple(["r"] + q + ["r", "ok", raw]))
    for _ in range(30000 if c.thorough() else 5000):
        k = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12])
        al = rng.sample(range(0, 40), k)
        n = rng.randint(1, k)
        ni = rng.sample(al, n)
        r = rng.random()
        mid = rng.sample([x for x in al if x not in (ni[0], ni[-1])], min(rng.randint(0, 4), len([x for x in al if x not in (ni[0], ni[-1])])))
        nr = list(reversed(ni)) if r < 0.4 else ([ni[-1]] + mid + [ni[0]] if len(ni) > 1 else list(ni))
        def st(n):
            s = [n[0]] + [x for x in n[1:-1] if rng.random() < 0.6] + ([n[-1]] if len(n) > 1 else [])
            return s
        si, sr = st(ni), st(nr)
        w = rng.random()
        if w < 0.55:  # one mutation of one of the four sequences
            q = [ni, nr, si, sr]
            k2 = rng.randrange(4); s = list(q[k2])
            mu = rng.choice(["drop_first", "drop_last", "dup", "foreign", "swap", "empty", "rev", "drop_mid"])
            if mu == "drop_first": s = s[1:]
            elif mu == "drop_last": s = s[:-1]
            elif mu == "dup": s.insert(rng.randrange(len(s) + 1), rng.choice(s))
            elif mu == "foreign": s[rng.randrange(len(s))] = 77
            elif mu == "swap" and len(s) > 1:
                a, b = rng.sample(range(len(s)), 2); s[a], s[b] = s[b], s[a]
            elif mu == "empty": s = []
            elif mu == "rev": s = s[::-1]
            elif mu == "drop_mid" and len(s) > 2: s.pop(rng.randrange(1, len(s) - 1))
            q[k2] = s
            ni, nr, si, sr = q
        elif w < 0.65 and n > 2:  # a loop: both directions end where they start, or one node repeats
            ni = ni + [ni[0]]
            nr = list(reversed(ni)) if rng.random() < 0.7 else [ni[0]] + mid + [ni[0]]
            si, sr = st(ni), st(nr)
        elif w < 0.75 and n > 2:  # repeated node far from its first visit, everything else in order
            a = rng.randrange(n); b = rng.randrange(1, n)
            ni = ni[:b] + [ni[a]] + ni[b:]
            nr = list(reversed(ni)) if rng.random() < 0.5 else [ni[-1]] + mid + [ni[0]]
            if rng.random() < 0.5:
                ni, nr = nr, ni
            si, sr = [ni[0], ni[-1]], [nr[0], nr[-1]]
        elif w < 0.85:  # stops of one direction mirrored on the other one
            si = st(ni); sr = si[::-1]
            if rng.random() < 0.5:
                sr = st(nr); si = sr[::-1]
        acts.append(("r", ni, nr, si, sr))
    ds = [{"acts": acts[i:i + 60]} for i in range(0, len(acts), 60)]
    c.extra["cases"] = len(acts)
    c.judge("TC10", run_routes, ds)


# ---------------------------------------------------------------- C11
def run_families(d):
    g = build(d["q"]) if "q" in d else G().Graph.build_from_content(d["base"])
    net = N().TransportNetwork(g); tags = Tags()
    ev = [city_ev(g)]
    for f, jump, s, e, name, bad in d["acts"]:
        m = mkmode(name)
        o, rs = call(family, net, f, "bus" if bad else m, jump, bool(s), bool(e))
        x = {"op": "family", "f": f, "jump": num(jump), "short": bool(s), "express": bool(e), "name": name, "badmode": bool(bad),
             "modetag": tags.tag(m), "outcome": o, "routes": [], "added": []}
        if o == "ok":
            x["routes"] = [proj_route(r, tags) for r in rs]
            if d.get("add", True):
                n2 = N().TransportNetwork(g)
                for r in rs:
                    x["added"].append(call(n2.add_route, r)[0])
        ev.append(x)
    return ev


def C11(c):
    rng = c.rng
    ds = []
    top = 24 if c.thorough() else 13
    for n in range(0, top + 1):
        acts = []
        for f, s, e in FAMILIES:
            jumps = [1] if f in ("circular", "feeder", "radial") else [-1, 0] + list(range(1, n + 2)) + [0.5, 1.5, n / 2, None, "1"]
            for jp in jumps:
                if jp is not None and isinstance(jp, (float, str)) and rng.random() < 0.3 and not c.thorough():
                    continue
                acts.append((f, jp, s, e, rng.choice(["bus", "metro", "m_x", "B"]), False))
            acts.append((f, 1, s, e, "bus", True))
        for k in range(0, len(acts), 40):
            q = gen_q(rng, n=n, positive=True, asym=k > 0)
            ds.append({"q": q, "acts": acts[k:k + 40]})
    for t in text_cities(rng, 30 if c.thorough() else 12):
        acts = []
        for f, s, e in FAMILIES:
            for jp in (0, 1, 2, 3, 4):
                acts.append((f, jp, s, e, "bus", False))
        ds.append({"base": t, "acts": acts})
    c.extra["cases"] = sum(len(d["acts"]) for d in ds)
    c.judge("TC11", run_families, ds)


# ---------------------------------------------------------------- C12
def run_export(d):
    import tempfile
    rng = random.Random(d["seed"])
    g = build(d["q"]) if "q" in d else G().Graph.build_from_content(d["base"])
    net = N().TransportNetwork(g); tags = Tags()
    ev = []
    ms = [mkmode(rng.choice(["bus", "a b", "m1", "m_1", "big_bus_", "CIR_I", "é"]), 1), mkmode(rng.choice(["metro", "metro", "me_tro"]), 2)]
    tmp = tempfile.mkdtemp(dir=d["dir"])
    for i in range(d["k"]):
        m = rng.choice(ms)
        r = rng.random()
        if r < 0.35:
            c = gen_custom(rng, g)
            if c:
                o, x = call(N().Route, rng.choice(["c%d", "c%d", "%d", "00%d", "1e%d", "%d.0", "c %d", "é%d"]) % i, m, *[j(x) for x in c])
                if o == "ok": call(net.add_route, x)
        elif r < 0.75:
            f, s, e = rng.choice(FAMILIES)
            o, rs = call(family, net, f, m, rng.randint(1, 3), bool(s), bool(e))
            for x in rs or []:
                if rng.random() < 0.8: call(net.add_route, x)
        elif net.get_routes():
            call(net.remove_route, rng.choice(net.get_routes()).id)
        if rng.random() < 0.4 or i == d["k"] - 1:
            ev.append(dict({"op": "network"}, **proj_net(net, tags)))
            p = os.path.join(tmp, "x%d.csv" % i)
            if rng.random() < 0.3:
                open(p, "w").write("old content\n" * 50)
            o, _ = call(net.routes_to_file, p)
            ls = open(p, encoding="utf-8").read().split("\n") if os.path.exists(p) else []
            if ls and ls[-1] == "": ls = ls[:-1]
            ev.append({"op": "export", "outcome": o, "lines": ls, "routes": proj_net(net, tags)["routes"]})
            # rebuild the routes from the file: custom where possible
            back, ok = [], "ok"
            byname = {x.name: x for x in net.get_modes()}
            for line, orig in zip(ls[1:], net.get_routes()):
                f = line.split(";")
                if len(f) != 6 or f[1] not in byname:
                    ok = "bad line"; break
                ty = N().RouteType.CUSTOM if "" not in f[2:] else N().RouteType.CIRCULAR
                o2, x = call(N().Route, f[0], byname[f[1]], *f[2:], _type=ty)
                if o2 != "ok":
                    ok = o2; break
                back.append(proj_route(x, tags))
            ev.append({"op": "rebuild", "outcome": ok, "routes": back})
    shutil.rmtree(tmp, ignore_errors=True)
    return ev


def C12(c):
    rng = c.rng
    ds = [dict(gen_city(rng, lo=1), seed=rng.random(), k=rng.choice([1, 3, 6, 10, 16]), dir=c.scratch.dir) for _ in range(2500 if c.thorough() else 300)]
    c.judge("TC12", run_export, ds)
