"""C01 city generation, C02 geometry, C03 exchange text."""
import os, tempfile, random, math
from vlib import *
import cityio
from cityio import *


def run_build(d):
    ev = []
    q = d["q"]
    out, g = call(build, q)
    r = {}
    if out == "ok":
        r = proj_city(g)
        ids = [x["id"] for x in r["nodes"]]
        real = [n.id for n in g.get_nodes()]
        cand = real + [max(real) + 1, -1, 99999]
        if d.get("few"):
            cand = [0, 1, 2] + random.Random(len(real)).sample(real, d["few"]) + real[-3:] + [max(real) + 1]
        r["exist"] = [{"a": sid(a), "b": sid(b), "ans": bool(g.edge_exist(a, b))} for a in cand for b in cand]
    ev.append({"op": "build", "q": enc_q(q), "outcome": out, "r": r})
    if out == "ok" and d.get("again"):
        # another city is built in between; the first one must not change
        call(build, d["again"])
        ev.append({"op": "unchanged", "r": proj_city(g)})
    for rad, ang in d.get("xy", []):
        o, v = call(cityio.G().Graph.get_xy, rad, ang)
        ev.append({"op": "xy", "radius": num(rad), "angle": num(ang), "outcome": o, "x": num(v[0]) if v else "nan", "y": num(v[1]) if v else "nan"})
        if v:
            o2, a = call(cityio.G().Graph.get_angle, v[0], v[1])
            ev.append({"op": "angle", "x": num(v[0]), "y": num(v[1]), "outcome": o2, "ans": num(a)})
    for x, y in d.get("dir", []):
        o2, a = call(cityio.G().Graph.get_angle, x, y)
        ev.append({"op": "angle", "x": num(x), "y": num(y), "outcome": o2, "ans": num(a)})
    return ev


def descs_build(rng, thorough):
    ds = []
    top = 40 if thorough else 20
    for n in range(0, top + 1):
        ds.append({"q": dict(n=n, l=10, g=0.5, p=2), "again": gen_q(rng, min(n + 1, 9))})
        for k in range(3 if n > 9 and not thorough else 8):
            ds.append({"q": gen_q(rng, n, asym=True), "again": gen_q(rng)})
    for n in ([30, 64, 100, 101, 130] if thorough else [33, 101]):      # ids and names of three digits
        ds.append({"q": gen_q(rng, n, asym=n % 2 == 0), "few": 14})
    # every subset of the optional asymmetries, every zone of etha
    for n in range(1, 6):
        for m in range(16):
            full = dict(n=n, l=rng.choice([7, 10.5]), g=rng.choice([0, 0.5, 1.75]), p=1)
            if m & 1:
                full.update(etha=rng.choice([0.25, 0.5, 1]), ethaZone=rng.randint(1, n))
            if m & 2:
                full["angles"] = [round((37 + 360 / n * i * 0.9) % 360, 2) for i in range(n)]
            if m & 4:
                full["Gi"] = [round(0.5 + 0.3 * i, 2) for i in range(n)]
            if m & 8:
                full["Hi"] = [round(1.7 - 0.2 * i, 2) for i in range(n)]
            ds.append({"q": full})
        for z in range(1, n + 1):
            ds.append({"q": dict(n=n, l=8, g=0.25, p=1, etha=0.75, ethaZone=z, Gi=[1 + i for i in range(n)])})
    for k in range(4000 if thorough else 400):
        ds.append({"q": gen_q(rng), "again": gen_q(rng)})
    return ds


def gen_point(rng):
    """points in every direction, in particular next to the axes and diagonals, of every magnitude"""
    r = 10 ** rng.uniform(-3, 4)
    e = rng.choice([0, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1, 1]) * rng.choice([1, 1, rng.random() + 0.01])
    x, y = rng.choice([1, -1]) * r, rng.choice([1, -1]) * r * e
    return (x, y) if rng.random() < 0.5 else (y, x)


def descs_geo(rng, thorough):
    ds = descs_build(rng, thorough)
    for d in ds:
        d["xy"] = [(round(rng.uniform(0, 50), 3), rng.choice([0, 30, 45, 90, 135, 180, 225, 270, 315, 360, round(rng.uniform(0, 360), 2)])) for _ in range(2)]
        d["dir"] = [(rng.choice([0, 1, -1, round(rng.uniform(-9, 9), 2)]), rng.choice([0, 1, -1, round(rng.uniform(-9, 9), 2)])) for _ in range(2)]
        d["dir"] += [gen_point(rng) for _ in range(6)]
    return ds


# ------------------------------------------------------------------ C03
def imp(text):
    """import from text and from a file with the same content"""
    Gr = cityio.G().Graph
    o, g = call(Gr.build_from_content, text)
    fd, p = tempfile.mkstemp(prefix="pajek", dir=os.path.join(VERIF, ".work"))
    os.close(fd)
    try:
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        o2, g2 = call(Gr.build_from_file, p)
    finally:
        os.unlink(p)
    r = proj_city(g) if o == "ok" else {}
    same = (o == o2) and (o != "ok" or r == proj_city(g2))
    return {"outcome": o, "r": r, "same": same, "lines": text.split("\n"), "re": again(g) if o == "ok" else {}}


def again(g):
    """the city that the reported parameters of g describe"""
    o, h = call(lambda: Gr_build(g.get_parameters()))
    return {"outcome": o, "nodes": [cityio.proj_node(n) for n in h.get_nodes()] if o == "ok" else []}


def Gr_build(q):
    return cityio.G().Graph.build_from_parameters(*q)


def run_exchange(d):
    ev = []
    if "text" in d:
        ev.append(dict(imp(d["text"]), op="import"))
        return ev
    g = build(d["q"]) if "q" in d else cityio.G().Graph.build_from_content(d["base"])
    ev.append({"op": "build", "r": proj_city(g)})
    o, text = call(g.export_graph)
    fd, p = tempfile.mkstemp(prefix="pajek", dir=os.path.join(VERIF, ".work"))
    os.close(fd)
    o2, _ = call(g.graph_to_pajek_file, p)
    ft = open(p).read() if o2 == "ok" else ""
    os.unlink(p)
    ev.append({"op": "export", "outcome": o if o != "ok" else o2, "lines": (text or "").split("\n"), "fileLines": ft.split("\n")})
    if o != "ok":
        return ev
    ev.append(dict(imp(text), op="roundtrip"))
    rng = random.Random(d["seed"])
    lines = text.split("\n")
    h = next(i for i, l in enumerate(lines) if l.startswith("*vertices"))
    rows = [l for l in lines[h + 1:] if l.strip()]
    head = lines[:h + 1]
    for k in range(d.get("perms", 2)):
        rr = rows[:]
        rng.shuffle(rr)
        ev.append(dict(imp("\n".join(head + rr) + "\n"), op="roundtrip"))
    # no trailing newline is still the same city
    ev.append(dict(imp("\n".join(head + rows)), op="roundtrip"))
    # any blank space separates the fields, either line end ends the lines
    ev.append(dict(imp("\n".join(head + [blanks(rng, r) for r in rows]) + "\n"), op="roundtrip"))
    if rng.random() < 0.5:
        ev.append(dict(imp("\r\n".join(head + rows) + "\r\n"), op="roundtrip"))
    for t in corruptions(rng, head, rows, d.get("faults", 6)):
        ev.append(dict(imp(t), op="import"))
    return ev


def blanks(rng, r):
    sep = lambda: rng.choice([" ", "\t", "  ", " \t "])
    return rng.choice(["", "", " ", "\t"]) + "".join(x + sep() for x in r.split()) + rng.choice(["", "", "  "])


def corruptions(rng, head, rows, k):
    res = []
    def put(rr, hd=None, nl=None):
        nl = rng.random() < 0.5 if nl is None else nl
        res.append("\n".join((hd or head) + rr) + ("\n" if nl else ""))
    for _ in range(k):
        rr = [r.split() for r in rows]
        i = rng.randrange(len(rr)); j = rng.randrange(len(rr))
        f = rng.randrange(17)
        if f == 0:      # cut whole lines
            put(rows[:i], nl=rng.random() < 0.5); continue
        if f == 1:      # drop one line
            put(rows[:i] + rows[i + 1:], nl=rng.random() < 0.5); continue
        if f == 2:      # cut inside a line
            rr2 = rows[:i] + [" ".join(rr[i][:rng.randrange(1, 7)])]; put(rr2); continue
        if f == 3: rr[i] = rr[i] + ["7"]
        if f == 4: rr[i][0] = rr[j][0]
        if f == 5: rr[i][0] = rng.choice(["x", "1.5", ""])
        if f == 6: rr[i][4] = rr[j][4]
        if f == 7: rr[i][4] = rng.choice(["cbd", "X", "p", "SCP"])
        if f == 8: rr[i][5] = str(rng.choice([0, 1, 2, len(rows), 17, -1]))
        if f == 9: rr[i][5] = rng.choice(["a", "1.0", "1.5"])
        if f == 10: rr[i][2] = rng.choice(["x", "--1"])
        if f == 11: rr[i][6] = rng.choice(["-1", "-0.5", "w"])
        if f == 12:
            put(rows, head[:-1] + ["*vertices %d" % rng.choice([len(rows) + 1, len(rows) + 2, len(rows) + 5, 0])]); continue
        if f == 13:
            put(rows, head[:-1] + [rng.choice(["*vertices", "vertices %d" % len(rows), "*arcs %d" % len(rows)])]); continue
        if f == 14:     # new ids everywhere: still a well formed city
            ids = rng.sample(range(0, 500), len(rr))
            for a, b in zip(rr, ids):
                a[0] = str(b)
        if f == 15:     # header in capitals, other text above: still well formed
            put(rows, ["some comment", "*Vertices %d" % len(rows)]); continue
        if f == 16:     # the two nodes of one zone get the same id / swapped kinds
            same = [r for r in rr if r[5] == rr[i][5]]
            if rng.random() < 0.5:
                for r in same:
                    r[0] = same[0][0]
            else:
                for r in same:
                    r[4] = {"P": "SC", "SC": "P"}.get(r[4], r[4])
        put([" ".join(r) for r in rr])
    return res


def row(i, name, x, y, k, z, w):
    return "%s %s %s %s %s %s %s" % (i, name, x, y, k, z, w)


def descs_exchange(rng, thorough):
    ds = []
    for n in range(0, 9):
        ds.append({"q": gen_q(rng, n, positive=True, asym=False), "seed": rng.random(), "perms": 3, "faults": 17})
        for _ in range(3):
            ds.append({"q": gen_q(rng, n, positive=True, asym=True), "seed": rng.random(), "perms": 2, "faults": 17})
    for n in (10, 12, 100, 105):        # ids of two and three digits
        ds.append({"q": gen_q(rng, n, positive=True, asym=n % 4 == 0), "seed": rng.random(), "perms": 1, "faults": 4 if n < 50 else 0})
    for _ in range(3000 if thorough else 150):
        ds.append({"q": gen_q(rng, positive=True), "seed": rng.random(), "perms": 2, "faults": 12 if not thorough else 10})
    # cities given only by text: arbitrary ids, names, widths and positions
    for _ in range(1500 if thorough else 150):
        n = rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        ids = rng.sample(range(-5, 300), 2 * n + 1)
        if rng.random() < 0.3:  # the usual ids, differently distributed
            ids = rng.sample(range(0, 2 * n + 1), 2 * n + 1)
        w = rng.choice([0, 1.5, 2])
        widths = rng.random() < 0.5
        def row(*a):
            a = list(a)
            if widths:
                a[-1] = rng.choice([0, 0, 1.5, 2, 0.25, round(rng.random(), 3)])
            return globals()["row"](*a)
        rows = [row(ids[0], "Centre", rng.choice([0, 0, 0.5, -0.25]), rng.choice([0, 0, 0.125]), "CBD", 0, w)]
        onray = rng.randrange(n) if n and rng.random() < 0.4 else -1
        for z in range(n):
            a, r = rng.uniform(0, 2 * math.pi), rng.uniform(2, 20)
            if z == onray:      # the centre is displaced towards this zone
                e = rng.choice([0.125, 0.25, 0.5, 1])
                x, y = (2 * rng.randint(-9, 9), 2 * rng.randint(1, 9)) if rng.random() < 0.7 else rng.choice([(4, 0), (-4, 0), (0, 6), (0, -6), (-6, -8), (5, -7)])
                rows[0] = row(ids[0], "Centre", e * x, e * y, "CBD", 0, w)
                rows.append(row(ids[2 * z + 1], "per%d" % z, 2 * x, 2 * y, "P", z + 1, w))
                rows.append(row(ids[2 * z + 2], "sub%d" % z, x, y, "SC", z + 1, w))
                continue
            rows.append(row(ids[2 * z + 1], "per%d" % z, round(2 * r * math.cos(a), 4), round(2 * r * math.sin(a), 4), "P", z + 1, w))
            rows.append(row(ids[2 * z + 2], "sub%d" % z, round(r * math.cos(a), 4), round(r * math.sin(a), 4), "SC", z + 1, w))
        rng.shuffle(rows)
        t = "\n".join(["*vertices %d" % len(rows)] + rows) + "\n"
        ds.append({"text": t})
        try:
            cityio.G().Graph.build_from_content(t)
            ds.append({"base": t, "seed": rng.random(), "perms": 2, "faults": 8})
        except Exception:
            pass
    # nothing, or only the centre under another kind
    for k in ("P", "SC", "CBD"):
        for z in (0, 1):
            ds.append({"text": "*vertices 1\n" + row(0, "c", 0, 0, k, z, 1) + "\n"})
    ds.append({"text": ""})
    ds.append({"text": "*vertices 0\n"})
    return ds


def C01(c):
    c.judge("TC01", run_build, descs_build(c.rng, c.thorough()))


def C02(c):
    c.judge("TC02", run_build, descs_geo(c.rng, c.thorough()))


def C03(c):
    c.judge("TC03", run_exchange, descs_exchange(c.rng, c.thorough()))
