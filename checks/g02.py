"""G02 coarse-mesh indexing"""
TARGETS = ["h_g02"]


def lines(r, n):
    k = r.random()
    if k < .3:
        h = r.choice([1.0, 1.26, 0.5])
        ws = [h] * n
    else:
        ws = [r.choice([0.25, 0.5, 1.0, 1.5, round(r.uniform(.1, 4), 3)]) for _ in range(n)]
    v = [0.0]
    for w in ws:
        v.append(v[-1] + w)
    return v


def case(r, n):
    g = [lines(r, k) for k in n]
    ins = lambda v, i: v[i] + (v[i + 1] - v[i]) * r.uniform(.05, .95)
    c = {"g": g, "pts": [], "fpts": [], "cpts": [], "bpts": [], "zpts": [], "tr": []}
    for _ in range(8):
        c["pts"].append({"p": [ins(v, r.randrange(len(v) - 1)) for v in g]})
    for _ in range(12):
        ax = r.choice([1, 2])
        i = [r.randrange(n[0]), r.randrange(n[1])]
        i[ax - 1] = r.randint(0, n[ax - 1])
        o = 2 - ax
        p = [0, 0]
        p[ax - 1] = g[ax - 1][i[ax - 1]]
        p[o] = ins(g[o], i[o])
        octant = r.randint(1, 4)
        high = octant in (1, 4) if ax == 1 else octant in (1, 2)
        edge = (i[ax - 1] == 0 and high) or (i[ax - 1] == n[ax - 1] and not high)
        c["fpts"].append({"p": p, "ax": ax, "c": i, "oct": octant, "edge": int(edge)})
    for _ in range(12):
        i = [r.randint(0, n[0]), r.randint(0, n[1])]
        on = [i[0] in (0, n[0]), i[1] in (0, n[1])]
        if all(on):
            continue
        octant = r.randint(1, 4)
        up = [octant in (1, 4), octant in (1, 2)]
        enters = any(on[a] and up[a] == (i[a] == 0) for a in (0, 1))
        ar = [] if any(on) else [[i[0] - a, i[1] - b] for a in (0, 1) for b in (0, 1)]
        c["cpts"].append({"p": [g[0][i[0]], g[1][i[1]]], "c": i, "oct": octant, "in": int(enters), "around": ar})
    for _ in range(14):
        at = [r.choice([-1, 0, 1]) for _ in range(3)]
        d = [r.choice([-3, -2, -1, 1, 2, 3]) for _ in range(3)]
        p = [0.0 if a < 0 else v[-1] if a > 0 else ins(v, r.randrange(len(v) - 1)) for a, v in zip(at, g)]
        c["bpts"].append({"p": p, "at": at, "d": d})
    for k in range(n[2] + 1):
        for up in (-1, 1):
            c["zpts"].append({"z": g[2][k], "k": k, "up": up})
    X, Y = g[0][-1], g[1][-1]
    for _ in range(6):
        for _ in range(200):
            side = lambda: r.choice([(0.0, r.uniform(0, Y)), (X, r.uniform(0, Y)), (r.uniform(0, X), 0.0), (r.uniform(0, X), Y)])
            a, b = side(), side()
            if r.random() < .15 and n[0] == n[1]:
                a, b = (0.0, 0.0), (X, Y)
            if a[1] > b[1]:
                a, b = b, a
            if b[1] - a[1] < 1e-2 or abs(b[0] - a[0]) < 1e-2:
                continue
            t = sorted([(v - a[0]) / (b[0] - a[0]) for v in g[0][1:-1]] + [(v - a[1]) / (b[1] - a[1]) for v in g[1][1:-1]])
            t = [u for u in t if -1e-3 < u < 1 + 1e-3]
            if all(1e-3 < u < 1 - 1e-3 for u in t) and all(y - x > 1e-3 or y - x < 1e-14 for x, y in zip(t, t[1:])):
                c["tr"].append({"a": list(a), "b": list(b)})
                break
    return c


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("GridMC", "GridMC")
    cases = [case(r, g["n"]) for g in gen]
    for _ in range(ctx.n(60, 600)):
        k = 7 if r.random() < .9 else 12
        cases.append(case(r, [r.randint(1, k), r.randint(1, k), r.randint(1, 4 if k == 7 else 7)]))
    ctx.conform("h_g02", "GridTrace", cases, timeout=20)
