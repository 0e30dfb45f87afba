"""X02 scattering matrices"""
TARGETS = ["h_x02"]


def fill(r, pat, neg=0.0, const=False):
    return [[(1.0 if const else round(r.uniform(.001, 1), 4)) * (-1 if r.random() < neg else 1) if x else 0.0 for x in row] for row in pat]


def rand_pat(r, n):
    d = r.choice([.1, .3, .6, .95])
    p = [[r.random() < d for _ in range(n)] for _ in range(n)]
    if r.random() < .3:
        p[r.randrange(n)] = [0] * n
    if r.random() < .3:
        k = r.randrange(n)
        for row in p:
            row[k] = 0
    return p


def other(r, m):
    n = len(m)
    k = r.random()
    if k < .25:
        return [list(x) for x in m]
    if k < .5:
        o = [list(x) for x in m]
        i, j = r.randrange(n), r.randrange(n)
        o[i][j] = 0.0 if o[i][j] and r.random() < .5 else o[i][j] + .5
        return o
    # same numbers, placed differently
    vals = [x for row in m for x in row if x]
    o = [[0.0] * n for _ in range(n)]
    cells = sorted(r.sample(range(n * n), len(vals)))
    for v, c in zip(vals, cells):
        o[c // n][c % n] = v
    return o


def run(ctx):
    r = ctx.rng
    cases = []
    pats = ctx.generate("ScatterMC")
    for p in pats:
        m = fill(r, p)
        cases.append({"m": m, "m2": other(r, m)})
    ones = [fill(r, p, const=True) for p in pats]
    # matrices that agree in what is stored and in the column sums
    by = {}
    for m in ones:
        key = (sum(map(sum, m)), tuple(sum(c) for c in zip(*m)))
        by.setdefault(key, []).append(m)
    n = 0
    for grp in by.values():
        for a in grp[:6]:
            for b in grp[:6]:
                if a is not b and n < ctx.n(300, 3000):
                    n += 1
                    cases.append({"m": a, "m2": b})
    for _ in range(ctx.n(200, 3000)):
        n = r.choice([1, 2, 2, 4, 5, 7, 12])
        m = fill(r, rand_pat(r, n), neg=r.choice([0, 0, .2]))
        cases.append({"m": m, "m2": other(r, m)})
    ctx.conform("h_x02", "ScatterTrace", cases, timeout=20)
