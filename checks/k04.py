"""K04 tallies"""
TARGETS = ["h_k04"]


def val(r, sty):
    return {"const": 0.7, "pos": round(r.uniform(.01, 5), 3), "mix": round(r.uniform(-1, 5), 3), "big": r.uniform(1e3, 1e6)}[sty]


def scalar(r):
    sty = r.choice(["const", "pos", "pos", "mix", "big"])
    ops = []
    for _ in range(r.randint(1, 9 if r.random() < .9 else 40)):
        k = r.choice(["score", "score", "weight", "batch", "batch", "get", "reset"])
        if k == "batch":
            n = r.choice([1, 2, 5, 40])
            ops += [{"k": "score", "v": [val(r, sty) for _ in range(n)]}, {"k": "weight", "v": [1.0] * n}, {"k": "get"}]
        elif k in ("score", "weight"):
            ops.append({"k": k, "v": [val(r, sty) if k == "score" else r.choice([1.0, 2.0, .5]) for _ in range(r.randint(1, 20))]})
        else:
            ops.append({"k": k})
    return {"op": "scalar", "nt": r.choice([1, 1, 4]), "ops": ops + [{"k": "get"}]}


def spatial(r):
    sty = r.choice(["const", "pos", "pos", "big"])
    n = r.randint(1, 5 if r.random() < .9 else 20)
    norm = [r.choice([1.0, .25, 7.3, r.uniform(.01, 20)]) for _ in range(n)]
    ops, nb = [], 0
    for _ in range(r.randint(1, 9 if r.random() < .9 else 30)):
        k = r.choice(["batch"] * 6 + ["get", "reset", "loose"])
        if k in ("batch", "loose"):
            m = r.choice([1, 3, 12, 60])
            if sty == "const":
                s = [{"i": i, "v": .7} for i in range(n)]
            else:
                s = [{"i": r.randrange(n), "v": val(r, sty)} for _ in range(m)]
            ops += [{"k": "score", "s": s}, {"k": "weight", "v": [r.choice([1.0, 1.0, 3.0]) if sty != "const" else 1.0 for _ in range(r.randint(1, 6) if sty != "const" else 3)]}]
            if k == "batch":
                ops.append({"k": "commit"})
                nb += 1
        elif k == "reset":
            ops.append({"k": "reset"})
            nb = 0
        if nb and r.random() < .6:
            ops.append({"k": "get"})
    return {"op": "spatial", "nt": r.choice([1, 1, 4]), "norm": norm, "ops": ops}


def run(ctx):
    r = ctx.rng
    ctx.model("TallyMC")
    ctx.conform("h_k04", "TallyTrace", [scalar(r) for _ in range(ctx.n(150, 2000))] + [spatial(r) for _ in range(ctx.n(200, 3000))], timeout=20)
