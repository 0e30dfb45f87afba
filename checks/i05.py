"""I05 exponential table"""
import math
from g04 import dec
TARGETS = ["h_i05"]


def run(ctx):
    r = ctx.rng
    by = {}
    for g in ctx.generate("ExpTableMC"):
        lo, hi, v = dec(g["lo"]), dec(g["hi"]), dec(g["v"])
        by.setdefault((g["n"], lo, hi), []).append(v)
    cases = [{"n": n, "lo": lo, "hi": hi, "vs": sorted(vs)} for (n, lo, hi), vs in by.items()]
    for _ in range(ctx.n(150)):
        n = r.choice([1, 2, 3, 5, 16, 100, 999, 10000, 10000, 10000])
        lo, hi = r.choice([(-10.0, 0.0), (0.0, 10.0), (-r.uniform(.1, 20), 0.0), (-r.uniform(.1, 9), r.uniform(.1, 4))])
        vs = [lo, hi]
        for _ in range(40):
            x = r.choice([r.uniform(lo, hi), lo + (hi - lo) * r.randint(0, n) / n, hi - (hi - lo) / n * r.random(),
                          lo + (hi - lo) / n * r.random(), lo - r.uniform(0, 30), hi + r.uniform(0, 5)])
            for _ in range(r.choice([0, 0, 1, 2])):
                x = math.nextafter(x, r.choice([-1e9, 1e9]))
            vs.append(x)
        cases.append({"n": n, "lo": lo, "hi": hi, "vs": sorted(vs)})
    ctx.conform("h_i05", "ExpTableTrace", cases, timeout=20)
