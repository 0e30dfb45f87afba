"""R01 characteristic rays"""
from swcommon import *
TARGETS = ["h_r01"]


def ray_case(r, big, cm=0):
    kw = {"twins": 1, "nmesh": 2, "npin": 4, "maxnz": 5} if r.random() < .5 else {"maxnz": 3}
    g = geo.rand_geometry(r, maxpins=3 if big else 2, maxasy=2, maxsub=3, **kw)
    _, lib, lx = materials(r)
    if r.random() < .3:
        q = '<ang_quad type="ls" order="%d"/>' % r.choice([2, 4, 6] if big else [2, 4])
    else:
        t, np = r.choice([("cg", 1), ("cg", 2), ("cy", 3)])
        q = '<ang_quad type="%s" n_azimuthal="%d" n_polar="%d"/>' % (t, r.choice([1, 2, 3, 4] if np == 1 else [1, 2]), np)
    rational = int(r.random() < .7)
    pinmod = int(r.random() < .4)
    # very coarse rays may merge two azimuthal angles, which is refused
    sp = round(g["pitch"] * (r.choice([.3, .5, .7, .9, 1.3]) if rational else r.choice([.12, .2])), 4)
    corr = r.choice(["flat", "flat", "angle", "none"])
    xml = wrap(g, lx) + "\n" + q + '<rays spacing="%s" %s modularity="%s" modularization="%s"/>' % (
        sp, '' if corr == "flat" and r.random() < .5 else 'volume_correction="%s"' % corr, "pin" if pinmod else "core",
        "rational_fraction" if rational else "trig")
    return {"xml": xml, "lib": lib, "d": desc(g), "space": sp, "pinmod": pinmod, "rational": rational, "corr": corr, "cm": cm, "close": 0.002}


def run(ctx):
    ctx.model("RaysMC")
    r = ctx.rng
    cases = [ray_case(r, not ctx.quick) for _ in range(ctx.n(50, 300))]
    ctx.conform("h_r01", "RaysTrace", cases, timeout=30, merge=slim)
