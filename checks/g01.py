"""G01 layout of pins and regions"""
import geo
from geocommon import *
TARGETS = ["h_g01"]


def cases_for(ctx, op, n, azi=(2, 4, 8)):
    r = ctx.rng
    gen = ctx.generate("LayoutMC", "LayoutMC")
    if ctx.quick:
        gen = r.sample(gen, min(len(gen), 150))
    cases = []
    for k in range(len(gen) + n):
        mats, lib, lx = materials(r)
        if k < len(gen):
            g = geo.rand_geometry(r, shape=gen[k], azi=azi, samelat=(op == "volume"))
        else:
            g = geo.rand_geometry(r, azi=azi, maxpins=4, maxasy=3, maxnz=5, samelat=(op == "volume"))
        c = {"op": op, "xml": wrap(g, lx), "lib": lib, "d": desc(g), "pts": []}
        if op == "layout":
            c["pts"] = [rand_point(r, g) for _ in range(14)]
        cases.append(c)
    return cases


def slim(c, o):
    import vlib
    return {"in": {"d": c["d"], "pts": c["pts"]}, "out": vlib.norm_out(o)}


def run(ctx):
    cases = cases_for(ctx, "layout", ctx.n(60, 700))
    ctx.conform("h_g01", "LayoutTrace", cases, timeout=20, merge=slim)
