"""X04 homogenised cross sections"""
import copy
import geo
from geocommon import *
from x03 import withmats
TARGETS = ["h_x04"]


def planeflux(r, g, ng, style):
    """one value per region of each plane group and energy group; some zero,
    never a whole pin"""
    f, z = [], 0
    for k in g["subplane"]:
        for iy in range(g["npy"]):
            for ix in range(g["npx"]):
                pass
        n = 0
        for iy in range(g["npy"]):
            for ix in range(g["npx"]):
                n += geo.nreg(pin_at(g, ix, iy, z)[1])
        for _ in range(n):
            f.append([1.7 if style == "flat" else 10 ** r.uniform(-3, 2) for _ in range(ng)])
        z += k
    return f


def single(r, g):
    """the same core, one plane"""
    s = copy.deepcopy(g)
    pool = {}
    for l in s["lats"]:
        pool.setdefault((l["nx"], l["ny"]), []).append(l["id"])
    by = {l["id"]: l for l in s["lats"]}
    for a in s["asys"]:
        l = by[a["groups"][0][0]]
        a["np"], a["hz"], a["groups"] = 1, [1.5], [[r.choice(pool[l["nx"], l["ny"]])]]
    s["nz"], s["hzup"], s["subplane"] = 1, [1.5], [1]
    return s


def slim(c, o):
    import vlib
    i = {k: v for k, v in c.items() if k not in ("xml", "lib")}
    i["parts"] = [{"bot": p["bot"], "top": p["top"]} for p in c["parts"]]
    return {"in": i, "out": vlib.norm_out(o)}


def run(ctx):
    r = ctx.rng
    ctx.model("XsMeshMC")
    cases = []
    for k in range(ctx.n(70, 600)):
        g, lib, lx, inm, bounds = withmats(r, neg=.2, ng=r.choice([1, 2, 3]), maxpins=2, maxsub=2)
        ng = len(bounds)
        np_ = len(g["subplane"])
        parts, z = [], 0
        if np_ > 1 and r.random() < .7:
            while z < np_:
                t = r.randint(z, np_ - 1)
                if r.random() < .7:
                    parts.append({"bot": z, "top": t, "xml": wrap(single(r, g), lx)})
                z = t + 1
        cases.append({"xml": wrap(g, lx), "lib": lib, "d": desc(g), "mats": inm, "parts": parts,
                      "flux": [planeflux(r, g, ng, r.choice(["flat", "any", "any"])) for _ in range(r.randint(1, 2))]})
    ctx.conform("h_x04", "XsHomTrace", cases, timeout=30, merge=slim)
