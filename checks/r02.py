"""R02 boundary slots and coarse crossings of rays"""
from swcommon import *
from r01 import ray_case
TARGETS = ["h_r01"]


def corner_case(r):
    """few rays, diagonal directions: many pass through corners of the pin grid"""
    n = r.randint(1, 4)
    g = geo.rand_geometry(r, shape={"cols": [r.randint(1, 3) for _ in range(r.randint(1, 2))], "rows": [n], "groups": [1]}, maxsub=2)
    _, lib, lx = materials(r)
    q = r.choice(['<ang_quad type="ls" order="2"/>', '<ang_quad type="cg" n_azimuthal="1" n_polar="1"/>', '<ang_quad type="cg" n_azimuthal="3" n_polar="1"/>'])
    pinmod = int(r.random() < .7)
    sp = round(g["pitch"] * r.choice([.5, .75, 1, 1.5, 3]), 4)
    xml = wrap(g, lx) + "\n" + q + '<rays spacing="%s" modularity="%s"/>' % (sp, "pin" if pinmod else "core")
    return {"xml": xml, "lib": lib, "d": desc(g), "cm": 1, "space": sp}


def fine_case(r):
    """a pin with very many regions along a ray"""
    g = geo.rand_geometry(r, shape={"cols": [1, 1], "rows": [1], "groups": [1]}, kinds=("rect",), nmesh=1, npin=2, maxsub=1)
    m = g["meshes"][0]
    m["subx"], m["suby"] = (r.randint(350, 600), 1) if r.random() < .5 else (1, r.randint(350, 600))
    for p in g["pins"]:
        p["mats"] = [r.choice([1, 2, 3]) for _ in range(m["subx"] * m["suby"])]
    _, lib, lx = materials(r)
    xml = wrap(g, lx) + '<ang_quad type="cg" n_azimuthal="1" n_polar="1"/><rays spacing="%s"/>' % round(g["pitch"] * .5, 4)
    return {"xml": xml, "lib": lib, "d": desc(g), "cm": 1, "space": 0}


def run(ctx):
    ctx.model("RaysMC")
    r = ctx.rng
    cases = [ray_case(r, not ctx.quick, cm=1) for _ in range(ctx.n(40, 250))] + [corner_case(r) for _ in range(ctx.n(40, 250))] \
        + [fine_case(r) for _ in range(ctx.n(4, 12))]
    ctx.conform("h_r01", "RayEndsTrace", cases, timeout=30, merge=slim)
