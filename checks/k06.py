"""K06 Monte Carlo eigenvalue runs"""
import random
from swcommon import *
from k03 import limbs, size
TARGETS = ["h_k06"]
NOTE = "Every history of small runs is followed by the specification; cycles with a history within 1e-8 of a tie are judged without it."


def case(r, np, ni, n, strict=0):
    ng = r.choice([1, 2, 3, 3, 5])
    ms, lib, lx = materials(r, ng, [1, 2, 3])
    bc = {s: r.choice(["reflect", "reflect", "vacuum"]) for s in ("north", "south", "east", "west", "top", "bottom")}
    if strict:
        bc = {s: "reflect" for s in bc}
    g = geo.rand_geometry(r, mats=[1] if strict else r.choice([[1], [1, 2], [1, 2], [1, 2, 3]]), maxpins=2, maxasy=2, maxsub=2, azi=(4,), maxnz=3, bc=bc)
    L = size(g)
    box = []
    for x in L:
        a, b = sorted(r.sample(range(9), 2))
        box += [a * x / 8, b * x / 8]
    seed = r.choice([1, r.randrange(1, 1 << 31, 2)])
    sol = '<solver type="eigenvalue_mc" cycles="%d" inactive_cycles="%d" particles_per_cycle="%d" %s><fission_box %s %s/></solver>' % (
        n, ni, np, "" if seed == 1 else 'seed="%d"' % seed,
        " ".join('%s_%s="%r"' % (a, b, box[2 * i + j]) for i, a in enumerate("xyz") for j, b in enumerate(("min", "max"))), r.choice(["", 'fissile_rejection="f"']))
    return {"xml": wrap(g, lx) + "\n" + sol, "lib": lib, "d": desc(g), "bc": bclist(g), "ng": ng, "seed": limbs(seed), "seed0": seed, "np": np, "ni": ni, "n": n, "box": box, "strict": strict}


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("McRunMC")
    cases = []
    for np, ni, n in gen:
        for _ in range(ctx.n(2, 12)):
            cases.append(case(r, np * r.choice([1, 2, 2]) + r.choice([0, 1, 3]), ni, n))
    cases.append(dict(case(random.Random(2), 12, 1, 2, 1), key="cycle-count"))
    ctx.conform("h_k06", "McRunTrace", cases, timeout=30, merge=slim)
