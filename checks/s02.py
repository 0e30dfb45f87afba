"""S02 Sn sweep"""
from swcommon import *
TARGETS = ["h_s02"]


def sn_case(r, big=False, flatp=.3, cddp=.35, **kw):
    ng = r.choice([1, 1, 2, 2, 4])
    flat = r.random() < flatp
    g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, neg=.1, maxpins=3 if big else 2, maxasy=2, maxsub=2, maxnz=1 if flat else 3)
    if flat and g["nz"] == 1:
        g["bc"]["top"] = g["bc"]["bottom"] = "reflect"
    if r.random() < .2:
        g["bc"][r.choice(sorted(g["bc"]))] = "prescribed"
    eq = "cdd" if r.random() < cddp else "dd"
    ax = r.choice(["dd", "sc"] if eq == "dd" else ["dd", "dd_ff", "sc", "fw", "pmb"])
    inners = r.choice([1, 1, 2, 3])
    upd = r.choice(["gs", "jacobi"])
    if r.random() < .5:
        o = r.choice([2, 4])
        q, nd = '<ang_quad type="ls" order="%d"/>' % o, o * (o + 2) // 8
    else:
        a, p = r.choice([(1, 1), (2, 1), (1, 2), (3, 1)])
        q, nd = '<ang_quad type="cg" n_azimuthal="%d" n_polar="%d"/>' % (a, p), a * p
    xml = wrap(g, lx) + "\n" + sn_xml(r, n_inner=inners, eq=eq, ax=ax, upd=upd, q=q) + '<source scattering="P0"/>'
    return {"xml": xml, "lib": lib, "ng": ng, "nd": nd, "eq": eq, "ax": ax, "gs": int(upd == "gs"), "inners": inners, "bc": bclist(g),
            "mp": [p for p, k in enumerate(g["subplane"]) for _ in range(k)], "seed": r.randrange(1 << 30),
            "ops": [{"g": r.randrange(ng), "lo": r.choice([0.0, 0.0, -3.0])} for _ in range(r.choice([1, 2, 3]))]}


def run(ctx):
    ctx.model("SnSweepMC")
    r = ctx.rng
    cases = [sn_case(r, big=not ctx.quick) for _ in range(ctx.n(60, 500))]
    ctx.conform("h_s02", "SnSweepTrace", cases, timeout=30, merge=slim)
