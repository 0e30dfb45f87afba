"""X05 expanded cross sections"""
import geo
from geocommon import *
from x03 import withmats, slim
TARGETS = ["h_x05"]


def nregs(g, lev):
    z, n = 0, 0
    planes = range(g["nz"]) if lev == "true" else [sum(g["subplane"][:i]) for i in range(len(g["subplane"]))]
    if lev == "hom":
        return g["npx"] * g["npy"] * g["nz"]
    return sum(geo.nreg(pin_at(g, ix, iy, z)[1]) for z in planes for iy in range(g["npy"]) for ix in range(g["npx"]))


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("ExpandMC")
    if ctx.quick:
        gen = r.sample(gen, 250)
    seqs = [[dict(o) for o in s] for s in gen]
    for _ in range(ctx.n(60, 900)):
        seqs.append([{"k": r.choice("eeesu"), "g": r.randrange(2)} for _ in range(r.randint(5, 14))])
    cases, pool = [], []
    for _ in range(12):
        pool.append(withmats(r, ng=2, nm=3, maxpins=2, maxasy=1, maxsub=2, maxnz=2))
    for ops in seqs:
        g, lib, lx, inm, bounds = r.choice(pool)
        lev = r.choice(["hom", "hom", "true", "plane"])
        n = nregs(g, lev)
        many = r.random() < .5
        for o in ops:
            o["h"] = r.randrange(4) if many else 0
            o["split"] = [round(r.uniform(.1, 1), 3) for _ in range(n)] if o["k"] == "s" and r.random() < .85 else []
            o["seed"] = r.randrange(1, 1 << 30, 2)
        cases.append({"xml": wrap(g, lx), "lib": lib, "hom": int(lev == "hom"), "true": int(lev == "true"), "ops": ops})
    ctx.conform("h_x05", "ExpandTrace", cases, timeout=20, merge=slim)
