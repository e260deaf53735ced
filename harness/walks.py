"""Spec -> code: turn the transitions emitted by TLC into walks that cover every one of them."""
import json, collections


def key(x):
    return json.dumps(x, sort_keys=True)


def cover(lines, init, maxlen=60, rng=None):
    """lines: [{s, a, t}] -> list of walks; a walk = [(action, target state)], from init, covering every transition"""
    adj = collections.defaultdict(list)
    seen = set()
    for e in lines:
        k = (key(e["s"]), key(e["a"]))
        if k in seen:
            continue
        seen.add(k)
        adj[k[0]].append((e["a"], e["t"], key(e["t"])))
    start = key(init)
    # shortest path tree from init
    path = {start: []}
    q = collections.deque([start])
    while q:
        u = q.popleft()
        for a, t, kt in adj[u]:
            if kt not in path:
                path[kt] = path[u] + [(a, t)]
                q.append(kt)
    todo = {u: list(range(len(adj[u]))) for u in adj}
    if rng:
        for u in todo:
            rng.shuffle(todo[u])
    left = sum(len(v) for v in todo.values())
    walks = []
    pend = collections.deque(sorted(path, key=lambda u: len(path[u])))
    while left:
        while pend and not todo.get(pend[0]):
            pend.popleft()
        u = pend[0] if rng is None else rng.choice([x for x in list(pend)[:50] if todo.get(x)])
        w = list(path[u])
        while len(w) < maxlen:
            if todo.get(u):
                a, t, kt = adj[u][todo[u].pop()]
                left -= 1
                w.append((a, t)); u = kt
            else:
                # nearest state with uncovered transitions (bounded search)
                par = {u: None}; dq = collections.deque([u]); goal = None; n = 0
                while dq and n < 400:
                    x = dq.popleft(); n += 1
                    if todo.get(x):
                        goal = x; break
                    for a, t, kt in adj[x]:
                        if kt not in par:
                            par[kt] = (x, a, t); dq.append(kt)
                if goal is None:
                    break
                seg = []
                x = goal
                while par[x]:
                    px, a, t = par[x]; seg.append((a, t)); x = px
                seg.reverse()
                if len(w) + len(seg) >= maxlen:
                    break
                w += seg; u = goal
        walks.append(w)
    return walks, len(seen)
