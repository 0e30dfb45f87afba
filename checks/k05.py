"""K05 fission bank"""
import geo
from geocommon import *
TARGETS = ["h_k05"]


def mkcase(r):
    mats, lib, lx = materials(r)
    g = geo.rand_geometry(r, maxpins=3, maxasy=2, maxnz=3)
    npt = 14
    pts = [rand_point(r, g) for _ in range(npt)]
    if r.random() < .3:
        pts = [pts[0]] * 7 + pts[:7]
    pin = [p["c"][0] + g["npx"] * (p["c"][1] + g["npy"] * p["c"][2]) for p in pts]
    wt = r.random() < .5
    site = lambda: {"id": r.randint(1, npt), "w": 1.0 if wt else r.choice([1.0, .5, 2.0])}
    uniq = r.random() < .5
    ops, have = [], 0
    for _ in range(r.randint(2, 10)):
        k = r.choice(["push", "push", "push", "pushb", "clear", "swap", "resize", "resize"])
        o = {"k": k}
        if k.startswith("push"):
            o["s"] = [site() for _ in range(r.randint(1, 120 if r.random() < .06 else 12))]
            if uniq:
                o["s"] = [{"id": i, "w": 1.0 if wt else .5} for i in r.sample(range(1, npt + 1), r.randint(1, npt))]
        if k == "resize":
            o["n"] = r.choice([0, 1, 2, 5, 9, 20, 40] if r.random() < .93 else [60, 100, 200])
        ops.append(o)
    return {"op": "ops", "seed": r.randrange(1, 10**6, 2), "xml": wrap(g, lx), "lib": lib, "npin": g["npx"] * g["npy"] * g["nz"],
            "pin": pin, "pts": [p["p"] for p in pts], "ops": ops}


def slim(c, o):
    import vlib
    return {"in": {k: v for k, v in c.items() if k not in ("xml", "lib", "pts")}, "out": vlib.norm_out(o)}


def run(ctx):
    r = ctx.rng
    ctx.model("BankMC")
    cases = [mkcase(r) for _ in range(ctx.n(120, 1800))]
    base = mkcase(r)
    for m, n in ((2, 1), (5, 3), (7, 2), (9, 8), (3, 7), (10, 11), (4, 20)):
        cases.append({"op": "even", "m": m, "n": n, "trials": ctx.n(4000, 40000), "seed": 12345, "xml": base["xml"], "lib": base["lib"]})
    ctx.conform("h_k05", "BankTrace", cases, timeout=30, merge=slim)
