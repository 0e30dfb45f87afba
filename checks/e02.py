"""E02 fixed-source iterations"""
from e01 import *
TARGETS = ["h_e01"]


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("PowerIterMC")
    gen = [(mx, kinds) for mn, mx, kinds in gen if mn == 0 and mx > 0 and all(a == 1 for a, b in kinds)]
    pool = pools(r, 12)
    cases = [scripted(r, "fix", 0, mx, kinds, pool) for mx, kinds in gen for _ in range(ctx.n(6, 30))]
    for _ in range(ctx.n(40, 500)):
        cases.append(scripted(r, "fix", 0, r.randint(1, 15), [], pool))
    cases += [real(r, "fix", i % 2 == 0, not ctx.quick) for i in range(ctx.n(60, 500))]
    ctx.conform("h_e01", "PowerIterTrace", cases, timeout=60, merge=slim)
