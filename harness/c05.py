"""C05 demand registry, C06 parametric demand, C07 demand exchange."""
import os, tempfile, random
from vlib import *
import cityio
from cityio import *
import walks


def D():
    from sidermit.city.demand import Demand
    return Demand


def proj_m(d):
    m = d.get_matrix()
    return {sid(o): {sid(k): num(v) for k, v in m[o].items()} for o in list(m)}


def st(d):
    t1, t2 = num(d.get_total_trips()), num(d.total_trips)
    return {"m": proj_m(d), "total": t1 if t1 == t2 else "two totals"}


def new_event(g, d):
    return dict({"op": "new", "nodes": [{"id": sid(n.id), "kind": kind(n), "zone": int(n.zone_id)} for n in g.get_nodes()],
                 "n": int(g.get_n())}, **st(d))


def city(d):
    return build(d["q"]) if "q" in d else G().Graph.build_from_content(d["base"])


def run_session(d):
    """a random history of edits on a demand (possibly generated), plus other demands alive"""
    g = city(d)
    rng = random.Random(d["seed"])
    dem = D()(g)
    other = D()(g)
    ev = [new_event(g, dem)]
    if d.get("gen"):
        o, x = call(D().build_from_parameters, g, *d["gen"])
        if o == "ok":
            dem = x
            ev.append(dict({"op": "load"}, **st(dem)))
    ids = [int(n.id) for n in g.get_nodes()]
    for _ in range(d["k"]):
        r = rng.random()
        o = rng.choice(ids); t = rng.choice(ids)
        if r < 0.1: o = max(ids) + rng.randint(1, 3)
        if 0.05 < r < 0.15: t = min(ids) - rng.randint(1, 3)
        v = rng.choice([0, 1, 7, round(rng.uniform(0, 500), 2), round(rng.uniform(0, 500), 2), rng.uniform(0, 1), 1e6, 1e-10, 3e-7])
        if r > 0.85: v = rng.choice([-1, -0.001, -1e9, -1e-7, -1e-10, -1e-13])
        out, _x = call(dem.change_vij, o, t, v)
        ev.append(dict({"op": "edit", "o": sid(o), "d": sid(t), "v": num(v), "outcome": out}, **st(dem)))
        if rng.random() < 0.2:
            call(other.change_vij, rng.choice(ids), rng.choice(ids), 13)
    return ev


def run_walk(d):
    """replay one walk of the model on the implementation (n = 1: nodes 0, 1, 2)"""
    g = build(dict(n=1, l=10, g=0.5, p=2))
    dem = D()(g)
    ev = [new_event(g, dem)]
    for a, t in d["walk"]:
        out, _ = call(dem.change_vij, int(a["o"]), int(a["d"]), float(a["v"]) if "." in a["v"] else int(a["v"]))
        s = st(dem)
        ev.append({"a": a, "t": t, "out": out, "s": s})
    return ev


def fnum(x):
    try:
        return float(x)
    except ValueError:
        return float("nan")


def replay_walks(c, runner, wl, compare):
    """compare the projected state after every step with the model's target state"""
    evs = pmap(runner, [{"walk": w} for w in wl], 60)
    n = 0
    for w, e in zip(wl, evs):
        if any(x.get("op") in ("timeout", "unrecordable") for x in e):
            c.viol.append((["timeout"], {"walk": [a for a, _ in w]}, e, "replay")); continue
        for i, x in enumerate(e):
            if "a" not in x:
                continue
            n += 1
            bad = compare(x)
            if bad:
                c.viol.append((bad, {"walk": [a for a, _ in w][:i]}, x, "replay of the model"))
                break
    c.traces += len(wl); c.events += n
    c.extra["transitions_replayed_on_impl"] = c.extra.get("transitions_replayed_on_impl", 0) + n
    c.samples.append({"walk": [a for a, _ in wl[0]][:8]})


def cmp_demand(x):
    bad = []
    er = x["a"]["err"]
    if (x["out"] != "ok") if not er else (x["out"] not in er):
        bad.append("edit_outcome")
    want, got = x["t"], x["s"]
    if set(got["m"]) != set(want["m"]) or any(set(got["m"][o]) != set(want["m"][o]) for o in want["m"]):
        bad.append("matrix_shape")
    elif any(abs(fnum(got["m"][o][d]) - float(want["m"][o][d])) > 1e-9 for o in want["m"] for d in want["m"][o]):
        bad.append("edit_matrix")
    if not abs(fnum(got["total"]) - float(want["total"])) <= 1e-9:
        bad.append("total_is_sum")
    return bad


def C05(c):
    lines = c.add_model("MDemand")
    wl, n = walks.cover(lines, {"m": {str(o): {str(d): "0" for d in range(3)} for o in range(3)}, "total": "0"},
                        60, c.rng if c.thorough() else None)
    c.extra["transitions_of_model"] = n
    replay_walks(c, run_walk, wl, cmp_demand)
    rng = c.rng
    ds = []
    for k in range(1200 if c.thorough() else 300):
        d = {"q": gen_q(rng, rng.choice([0, 1, 1, 2, 2, 3, 4])), "seed": rng.random(), "k": rng.choice([6, 12, 25])}
        if rng.random() < 0.4 and d["q"]["n"] > 0:
            d["gen"] = gen_params(rng)
        ds.append(d)
    for b in text_cities(rng, 40):
        ds.append({"base": b, "seed": rng.random(), "k": rng.choice([15, 60])})
    c.judge("TC05", run_session, ds)


def text_cities(rng, k):
    import c01
    res = []
    while len(res) < k:
        n = rng.choice([1, 2, 3, 3, 4, 5])
        ids = rng.sample(range(0, 60 if rng.random() < 0.6 else 2 * n + 1), 2 * n + 1)
        style = rng.choice(["plain", "plain", "quarters", "swapped", "numbers", "centre"])
        called = {"plain": ("p%d", "s%d"), "quarters": ("Ward_%d", "Market_%d"), "swapped": ("SC_%d", "P_%d"),
                  "numbers": ("1%d", "2%d"), "centre": ("CBD_%d", "CBD%d")}[style]
        w = rng.choice([1, 1, 1, 2, 0.5, 3])
        rows = [c01.row(ids[0], rng.choice(["Centre", "CBD", "0", "P_0"]), 0, 0, "CBD", 0, w)]
        for z in range(n):
            x, y = rng.choice([(5, 1 + z), (-4, 2 + z), (1 + z, -6), (-3 - z, -2)])
            rows.append(c01.row(ids[2 * z + 1], called[0] % z, 2 * x, 2 * y, "P", z + 1, w if rng.random() < 0.7 else 1.5))
            rows.append(c01.row(ids[2 * z + 2], called[1] % z, x, y, "SC", z + 1, w if rng.random() < 0.7 else 2.5))
        rng.shuffle(rows)
        t = "*vertices %d\n" % len(rows) + "\n".join(rows) + "\n"
        try:
            G().Graph.build_from_content(t)
            res.append(t)
        except Exception:
            pass
    return res


def gen_params(rng):
    """y, a, alpha, beta in the domain (faces of the simplex included)"""
    y = rng.choice([0, 1, 1000, 157300, round(rng.uniform(0, 5000), 2)])
    a = rng.choice([0, 1, 0.8, round(rng.random(), 2)])
    t = rng.random()
    if t < 0.35:
        al = rng.randint(1, 100); be = 100 - al
        al, be = al / 100, be / 100
    elif t < 0.45:
        al, be = rng.choice([(0, 0), (1, 0), (0, 0.5), (0.5, 0), (0, 0.99)])
    else:
        al = round(rng.random(), 2); be = round(rng.uniform(0, 1 - al), 2)
        be = be if be < 1 else 0.5
        if al + be > 1: be = 0
    if rng.random() < 0.25:     # all digits, shares next to the faces
        al = rng.choice([rng.random(), 1e-6, 0.999, 1e-10]); be = (1 - al) * (1 - rng.choice([0.5, 0.01, 1e-4, 1e-6]))
        a, y = rng.choice([rng.random(), 1e-7, 1 - 1e-7, 0.5]), rng.choice([rng.uniform(0, 9), 1e6, y])
    return [y, a, al, be]


def run_generate(d):
    g = city(d)
    ev = [new_event(g, D()(g))]
    for p in d["ps"]:
        o, dem = call(D().build_from_parameters, g, *p)
        e = {"op": "generate", "q": dict(zip(("y", "a", "alpha", "beta"), [num(x) for x in p])), "outcome": o, "m": {}, "total": "0"}
        if o == "ok":
            e.update(st(dem))
        ev.append(e)
    return ev


def C06(c):
    rng = c.rng
    ds = []
    N = 12 if c.thorough() else 7
    for n in range(0, N + 1):
        for k in range((60 if c.thorough() else 14) if n < 5 else 4):
            ps = [gen_params(rng) for _ in range(4)]
            if k == 0 and n:
                # all faces, hundredths on alpha + beta = 1
                ps = [[100, 0.6, i / 100, (100 - i) / 100] for i in range(1, 101)] if n < 4 else ps
                ps += [[100, a, al, be] for a in (0, 1) for al in (0, 1) for be in (0, 0.5) if al + be <= 1]
            bad = [[-1, 0.5, 0.1, 0.1], [1, -0.01, 0.1, 0.1], [1, 1.01, 0.1, 0.1], [1, 0.5, -0.01, 0], [1, 0.5, 1.01, 0],
                   [1, 0.5, 0, -0.01], [1, 0.5, 0, 1.01], [1, 0.5, 0, 1], [1, 0.5, 0.6, 0.41], [1, 0.5, 1, 0.01], ["1", 0.5, 0.1, 0.1],
                   [1, 0.5, 0.5, 0.503], [1, 0.5, 0.3, 0.7001], [1, 0.5, 0.999999, 0.000002], [1, 1.000001, 0.1, 0.1], [-1e-9, 0.5, 0.1, 0.1],
                   [1, -1e-9, 0.1, 0.1], [1, 0.5, -1e-7, 0.5], [1, 0.5, 0.5, -1e-7], [1, 0.5, 0, 1.0000001], [1, None, 0.1, 0.1], [1, 0.5, "x", 0.1], [1, 0.5, 0.1, None], [-1, 2, 0.1, 0.1]]
            ps += [rng.choice(bad) for _ in range(3)] if k else bad
            ds.append({"q": gen_q(rng, n, asym=bool(k % 2)), "ps": ps})
    for b in text_cities(rng, 60 if c.thorough() else 25):
        ds.append({"base": b, "ps": [gen_params(rng) for _ in range(3)]})
    c.judge("TC06", run_generate, ds)


def tmpfile():
    fd, p = tempfile.mkstemp(prefix="demand", dir=os.path.join(VERIF, ".work"))
    os.close(fd)
    return p


def lines_of(text):
    ls = text.split("\n")
    return ls[:-1] if ls and ls[-1] == "" else ls


def run_files(d):
    g = city(d)
    rng = random.Random(d["seed"])
    ids = [int(n.id) for n in g.get_nodes()]
    dem = D()(g)
    ev = [new_event(g, dem)]
    if d.get("gen"):
        o, x = call(D().build_from_parameters, g, *d["gen"])
        dem = x if o == "ok" else dem
    for _ in range(d["k"]):
        call(dem.change_vij, rng.choice(ids), rng.choice(ids), rng.choice([0, 3, 12.5, 1 / 3, 1e-7, 123456.789, rng.uniform(0, 99)]))
    ev.append(dict({"op": "load"}, **st(dem)))
    p = tmpfile()
    try:
        o, _ = call(dem.matrix_to_file, p)
        text = open(p, encoding="utf-8").read() if o == "ok" else ""
        ls = lines_of(text)
        ev.append({"op": "save", "outcome": o, "lines": ls, "m": proj_m(dem)})
        o2, d2 = call(D().build_from_file, g, p)
        ev.append(dict({"op": "reload", "outcome": o2}, **(st(d2) if o2 == "ok" else {"m": {}, "total": "0"})))
        if o != "ok" or not ls:
            return ev
        for v in variants(rng, ls, ids, d["faults"]):
            with open(p, "w", encoding="utf-8") as f:
                f.write("\n".join(v) + ("\n" if rng.random() < 0.5 else ""))
            o3, d3 = call(D().build_from_file, g, p)
            ev.append(dict({"op": "read", "outcome": o3, "lines": v, "big": num(1e6)}, **(st(d3) if o3 == "ok" else {"m": {}, "total": "0"})))
    finally:
        os.unlink(p)
    n = len(ids)
    for k in range(d["contents"]):
        rows = [[rng.choice([0, 1, 2.5, round(rng.uniform(0, 90), 2), rng.choice([1e-9, 1e7, 0.1])]) for _ in range(n)] for _ in range(n)]
        t = rng.randrange(9) if k else 8
        if t == 0: rows = rows[:-1]
        if t == 1: rows = rows + [rows[0]]
        if t == 2: rows[rng.randrange(n)] = rows[0][:-1]
        if t == 3: rows[rng.randrange(n)] = rows[0] + [0]
        if t == 4: rows[rng.choice([0, n - 1, rng.randrange(n)])][rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([-1, -0.01, -1e-9])
        if t == 5: rows[rng.randrange(n)][rng.randrange(n)] = rng.choice(["x", None])
        o4, d4 = call(D().build_from_content, g, rows)
        ev.append(dict({"op": "content", "outcome": o4, "rows": [[num(x) for x in r] for r in rows]},
                       **(st(d4) if o4 == "ok" else {"m": {}, "total": "0"})))
    return ev


def variants(rng, ls, ids, k):
    res = []
    for _ in range(k):
        v = list(ls)
        i = rng.randrange(1, len(v)) if len(v) > 1 else 0
        t = rng.randrange(12)
        if i == 0:
            break
        f = v[i].split(",")
        if t == 0: body = v[1:]; rng.shuffle(body); v = [v[0]] + body
        if t == 1: del v[i]                                   # an absent pair has no trips
        if t == 2: v.append("%s,%s,%s" % (f[0], f[1], 41.25))   # last line of a pair counts
        if t == 3: v[i] = ",".join(f[:2])
        if t == 4: v[i] = ",".join(f + ["1"])
        if t == 5: v[i] = "%s,%s,%s" % (max(ids) + 5, f[1], f[2])
        if t == 6: v[i] = "%s,%s,%s" % (f[0], max(ids) + 5, f[2])
        if t == 7: v[i] = "%s,%s,%s" % (f[0], f[1], rng.choice(["-1", "-0.5", "-1e-9", "-0.0001"]))
        if t == 8: v[i] = "%s,%s,%s" % (f[0], f[1], rng.choice(["x", "1;2"]))
        if t == 9: v[i] = "%s,%s,%s" % (rng.choice(["x", "1.5", ""]), f[1], f[2])
        if t == 10: v[i] = "%s,%s,%s" % (f[0], rng.choice(["x", "2.0", ""]), f[2])
        if t == 11: v[i] = "%s,%s,%s" % (f[0], f[1], rng.choice(["7", "0.5", "1e3", "2.50"]))
        res.append(v)
    return res


def C07(c):
    rng = c.rng
    ds = []
    for k in range(900 if c.thorough() else 200):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4])
        d = {"q": gen_q(rng, n), "seed": rng.random(), "k": rng.choice([0, 4, 9]), "faults": 8, "contents": 5}
        if k % 66 == 65:        # larger cities, ids of two digits
            d = {"q": gen_q(rng, rng.choice([7, 10, 11, 12])), "seed": rng.random(), "k": 40, "faults": 2, "contents": 1}
        if n and rng.random() < 0.5:
            d["gen"] = gen_params(rng)
        ds.append(d)
    for b in text_cities(rng, 120 if c.thorough() else 40):
        ds.append({"base": b, "seed": rng.random(), "k": 9, "faults": 6, "contents": 4})
    c.judge("TC07", run_files, ds)
