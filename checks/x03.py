"""X03 cross-section mesh"""
import geo
from geocommon import *
TARGETS = ["h_x03"]


def withmats(r, ng=None, nm=None, neg=0.0, **kw):
    """a geometry, its library and the materials by ID"""
    ng = ng or r.choice([1, 2, 2, 3, 7])
    nm = nm or r.randint(2, 5)
    mats = [geo.rand_material(r, ng, "m%d" % i, fissile=r.random() < .6) for i in range(nm)]
    for m in mats:
        if r.random() < neg:
            g = r.randrange(ng)
            m["sc"][g][g] = -round(r.uniform(.001, .01), 5)
            m["ab"][g] += .05
    ids = r.sample(range(1, 90), nm)
    order = list(range(nm))
    r.shuffle(order)
    bounds = [round(1e7 / 10 ** i, 6) for i in range(ng)]
    g = geo.rand_geometry(r, mats=ids, **kw)
    lib = geo.lib_text(mats, ng, bounds)
    lx = geo.matlib_xml("lib.xsl", [(ids[i], mats[i]["name"]) for i in order])
    inm = [{"id": i, **{k: m[k] for k in ("ab", "nf", "f", "chi", "sc")}} for i, m in zip(ids, mats)]
    return g, lib, lx, inm, bounds


def slim(c, o):
    import vlib
    return {"in": {k: v for k, v in c.items() if k not in ("xml", "lib")}, "out": vlib.norm_out(o)}


def run(ctx):
    r = ctx.rng
    ctx.model("XsMeshMC")
    cases = []
    for _ in range(ctx.n(120, 1200)):
        g, lib, lx, inm, bounds = withmats(r)
        cases.append({"xml": wrap(g, lx), "lib": lib, "d": desc(g), "mats": inm, "bounds": bounds})
    ctx.conform("h_x03", "XsMeshTrace", cases, timeout=20, merge=slim)
