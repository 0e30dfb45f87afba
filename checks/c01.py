"""C01 CMFD on a transport state"""
from swcommon import *
TARGETS = ["h_c01"]


def cm_case(r, big=False):
    ng = r.choice([1, 2, 2, 3, 5])
    while True:
        g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, maxpins=3 if big else 2, maxasy=2, maxsub=3, maxnz=4)
        if all(sum(m["nf"]) > 0 for m in inm):
            break
    tame = r.random() < .8
    ops = [{"radial": int(r.random() < .85), "axial": int(r.random() < .8), "surf": 0, "fixed": 0}]
    for _ in range(r.choice([1, 1, 2])):
        ops.append({"radial": 1, "axial": 1, "surf": r.choice([0, 1]), "fixed": 1})
    xml = wrap(g, lx) + ('\n<cmfd k_tol="1e-9" psi_tol="1e-9" residual_reduction="1e-9" max_iter="%d" dump_current="t" %s/>'
                         % (600, 'negative_fixup="t"' if r.random() < .2 else ""))
    return {"xml": xml, "lib": lib, "ng": ng, "bc": bclist(g), "mp": [p for p, k in enumerate(g["subplane"]) for _ in range(k)],
            "seed": r.randrange(1 << 30), "tame": int(tame), "spread": r.choice([0, .5, .9]) if tame else 2.5,
            "scale": r.choice([1, 1, .1, 10]), "k0": round(r.uniform(.5, 1.5), 3), "ops": ops, "dump": 1}


def run(ctx):
    ctx.model("CmfdMC")
    r = ctx.rng
    cases = [cm_case(r, big=not ctx.quick) for _ in range(ctx.n(60, 500))]
    ctx.conform("h_c01", "CmfdTrace", cases, timeout=60, merge=slim)
