"""K02 reproducible Monte Carlo"""
from swcommon import *
from s05 import plans
TARGETS = ["p_k02"]
NOTE = "All interleavings of small cycles in the model; the code runs under schedules taken from the model, random ones, and one directed preemption at every kind of conflicting access found."


def case(r, gen, quick):
    ng = r.choice([1, 2, 3, 3, 5])
    ms, lib, lx = materials(r, ng, [1, 2, 3])
    bc = {s: r.choice(["reflect", "reflect", "vacuum"]) for s in ("north", "south", "east", "west", "top", "bottom")}
    g = geo.rand_geometry(r, mats=r.choice([[1, 2], [1, 2], [1, 2, 3]]), maxpins=2, maxasy=2, maxsub=2, azi=(4,), maxnz=3, bc=bc)
    ni, n = r.choice([0, 1, 2, 2, 4]), r.choice([3, 10, 20, 20, 40])
    cyc = ni + (r.choice([0, 1, 2]) if n > 20 or r.random() < 0.6 else r.choice([4, 6, 9]))
    x, y, z = g["npx"] * g["pitch"], g["npy"] * g["pitch"], sum(g["hzup"])
    box = [v for d in (x, y, z) for v in sorted(r.sample([i * d / 8 for i in range(9)], 2))]
    sol = '<solver type="eigenvalue" cycles="%d" inactive_cycles="%d" particles_per_cycle="%d" seed="%d"><fission_box %s/></solver>' % (
        cyc, ni, n, r.randrange(1, 10**6, 2), " ".join('%s_%s="%.6f"' % (a, b, box[2 * i + j]) for i, a in enumerate("xyz") for j, b in enumerate(("min", "max"))))
    return {"mode": "mc", "xml": wrap(g, lx) + "\n" + sol, "lib": lib, "ng": ng, "np": n, "seed": r.randrange(1 << 30), "plans": plans(r, gen, 4 if quick else 10),
            "directed": [{"threads": r.choice([2, 2, 3, 4]), "regions": 3 if quick else 10, "cap": 8 if quick else 30, "each": 4 if quick else 8}]}


def run(ctx):
    r = ctx.rng
    ctx.model("FissionCycleMC")
    gen = [list(x) for x in sorted({tuple(s) for s in ctx.generate("ThreadsMC")})]
    cases = [case(r, gen, ctx.quick) for _ in range(ctx.n(80, 600))]
    ctx.conform("p_k02", "FissionCycleTrace", cases, timeout=200, merge=slim)
