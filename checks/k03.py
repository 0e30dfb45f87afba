"""K03 particle histories"""
import math
import geo
from swcommon import *
TARGETS = ["h_k03"]
NOTE = "Histories that come within 1e-8 of a tie between boundaries or with a collision are not judged beyond it; corners are met exactly by separate flights without collisions."


def limbs(v, n=5):
    return [(v >> (15 * i)) & 32767 for i in range(n)]


def world(r):
    ng = r.choice([1, 2, 3, 3, 5])
    g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, maxpins=2, maxasy=2, maxsub=2, azi=(4, 4, 8), maxnz=3)
    return ng, g, lib, lx


def size(g):
    return g["npx"] * g["pitch"], g["npy"] * g["pitch"], sum(g["hzup"])


def unit(o):
    n = math.sqrt(sum(x * x for x in o))
    return [x / n for x in o]


def case(r, n):
    ng, g, lib, lx = world(r)
    L = size(g)
    hist = []
    for _ in range(n):
        o = unit([r.gauss(0, 1) for _ in range(3)])
        p = [r.uniform(.001, .999) * x for x in L]
        if r.random() < .4:          # starts next to a boundary of a pin or inside one
            k, step = r.randrange(2), g["pitch"] * r.choice([1, .5])
            p[k] = abs(step * r.randint(0, round(L[k] / step) - 1) + r.choice([-1, 1]) * 10 ** r.uniform(-5, -2.5))
        hist.append({"p": p, "o": o, "g": r.randrange(ng), "id": limbs(r.choice([r.randrange(100), r.randrange(10**6)])),
                     "w": r.choice([1.0, 1.0, 1.0, 2.5, .4])})
    return {"kind": "full", "xml": wrap(g, lx), "lib": lib, "d": desc(g), "bc": bclist(g), "ng": ng, "seed": limbs(r.randrange(1, 1 << 40, 2)), "hist": hist}


def edge(r, n):
    """flights that graze boundaries, or start next to them"""
    ng, g, lib, lx = world(r)
    L = size(g)
    hist = []
    for _ in range(n):
        o = [r.gauss(0, 1) for _ in range(3)]
        for k in r.sample(range(3), r.choice([1, 1, 2])):
            o[k] = r.choice([-1, 1]) * 10 ** r.uniform(-9, -1)
        p = []
        for k, x in enumerate(L):
            near = r.random() < .4
            step = g["pitch"] * r.choice([1, .5]) if k < 2 else x
            p.append(min(x * (1 - 1e-9), max(x * 1e-9, step * r.randint(0, int(x / step + .5)) + r.choice([-1, 1]) * 10 ** r.uniform(-9, -3))) if near
                     else r.uniform(.001, .999) * x)
        if r.random() < .5:          # reaches a border of the core at a grazing angle
            k = r.randrange(3)
            gap = 10 ** r.uniform(-8, -4)
            hi = r.random() < .5
            p[k] = L[k] - gap if hi else gap
            o = [r.gauss(0, 1) for _ in range(3)]
            o[k] = (1 if hi else -1) * gap / r.uniform(.02, .3)
        hist.append({"p": p, "o": unit(o), "g": r.randrange(ng), "id": limbs(r.randrange(1000)), "w": 1.0})
    return {"kind": "edge", "xml": wrap(g, lx), "lib": lib, "d": desc(g), "bc": bclist(g), "ng": ng, "seed": limbs(r.randrange(1, 1 << 40, 2)), "hist": hist}


def corner(r, n):
    """flights through nearly empty cells that meet corners of pins and of the core exactly"""
    g = geo.rand_geometry(r, mats=[1], maxpins=3, maxasy=2, maxsub=2, azi=(4, 4, 8), maxnz=3)
    mats = [{"name": "thin", "ab": [1e-13], "nf": [0.0], "f": [0.0], "chi": [0.0], "sc": [[1e-14]]}]
    out = r.randrange(4)
    g["bc"] = {k: ("vacuum" if i == out or r.random() < .2 else "reflect") for i, k in enumerate(("east", "north", "west", "south", "top", "bottom"))}
    L, p = size(g), g["pitch"]
    hist = []
    for _ in range(n):
        fr = r.choice([.5, .5, .25, .75])
        sg = [r.choice([-1, 1]), r.choice([-1, 1])]
        st = [p * (r.randrange(g["npx"]) + fr), p * (r.randrange(g["npy"]) + (fr if sg[0] == sg[1] else 1 - fr)), r.uniform(.1, .9) * L[2]]
        k = r.choice([1, 1, 1, 1, 2, 3])
        o = unit([sg[0] * r.choice([1, k]), sg[1] * r.choice([1, k]), r.choice([0, 0, .3, -.2])])
        hist.append({"p": st, "o": o, "g": 0, "id": limbs(r.randrange(1000)), "w": 1.0})
    return {"kind": "corner", "xml": wrap(g, geo.matlib_xml("lib.xsl", [(1, "thin")])), "lib": geo.lib_text(mats, 1), "d": desc(g), "bc": bclist(g), "ng": 1,
            "seed": limbs(r.randrange(1, 1 << 40, 2)), "hist": hist}


def run(ctx):
    ctx.model("HistoryMC")
    ctx.model("CornerMC")
    r = ctx.rng
    cases = [case(r, 6) for _ in range(ctx.n(120, 1500))] + [edge(r, 10) for _ in range(ctx.n(60, 600))] \
        + [corner(r, 8) for _ in range(ctx.n(60, 600))]
    ctx.conform("h_k03", "HistoryTrace", cases, timeout=30, merge=slim)
