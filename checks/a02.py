"""A02 boundary exchange"""
TARGETS = ["h_a02"]
QUADS = {1: '<ang_quad type="ls" order="2"/>', 2: '<ang_quad type="cg" n_azimuthal="2" n_polar="1"/>',
         3: '<ang_quad type="ls" order="4"/>', 6: '<ang_quad type="ls" order="6"/>',
         8: '<ang_quad type="cg" n_azimuthal="4" n_polar="2"/>'}


def mkcase(r):
    nd = r.choice([1, 1, 1, 2, 2, 3, 3, 6, 8])
    dim = r.choice([2, 3])
    half = dim == 2 and r.random() < .6
    na = (4 if half else 8) * nd
    ng = r.choice([1, 2, 3, 3, 4, 7])
    uniform = (not half) and r.random() < .4
    base = [[r.randint(1, 4), r.randint(1, 4), 0 if dim == 2 else r.randint(1, 3)] for _ in range(nd)] if nd < 6 else \
        [[r.randint(1, 2), r.randint(1, 2), 0 if dim == 2 else 1] for _ in range(nd)]
    if r.random() < .2:
        base = [[b[0] if r.random() < .6 else 0, b[1], b[2]] for b in base]
    if uniform:
        base = [base[0]] * nd
    # a slot count belongs to a direction and its mirror images
    size = [base[a % nd] for a in range(na)]
    cnt = [0]

    def faces():
        o = []
        for s in size:
            fa = []
            for n in range(3):
                f = []
                for _ in range(s[n]):
                    cnt[0] += 1
                    f.append(cnt[0] + .5)
                fa.append(f)
            o.append(fa)
        return o
    bc = [r.choice(["vacuum", "reflect", "reflect", "prescribed"]) for _ in range(6)]
    if dim == 2 and half:
        bc[4] = bc[5] = r.choice(["vacuum", "reflect"])
    start = [faces() for _ in range(ng)]
    ops = []
    order = list(range(na))
    r.shuffle(order)
    for a in order[:r.randint(1, 5)]:
        ops.append({"g": r.randrange(ng), "angle": a, "out": faces()})
    ops.insert(r.randint(0, len(ops)), {"g": r.randrange(ng), "angle": -1, "out": faces()})
    return {"nd": nd, "dim": dim, "quad": QUADS[nd], "ng": ng, "uniform": int(uniform), "size": size, "bc": bc,
            "start": start, "ops": ops, "val": 0.25}


def run(ctx):
    ctx.model("BoundaryMC")
    ctx.conform("h_a02", "BoundaryTrace", [mkcase(ctx.rng) for _ in range(ctx.n(250, 3000))], timeout=20)
