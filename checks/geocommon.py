"""Shared pieces of the geometry checks"""
import math
import geo


def materials(r, ng=2, ids=(1, 2, 3)):
    mats = [geo.rand_material(r, ng, "m%d" % i, fissile=(i != ids[-1])) for i in ids]
    return mats, geo.lib_text(mats, ng), geo.matlib_xml("lib.xsl", [(i, "m%d" % i) for i in ids])


def wrap(g, libxml, r=None):
    return "<r>%s\n%s</r>" % (libxml, geo.geo_xml(g, r)) if False else libxml + "\n" + geo.geo_xml(g, r)


def desc(g):
    return {k: g[k] for k in ("meshes", "pins", "lats", "asys", "core")}


def interior(m, x, y, eps):
    """no region boundary of the mesh within eps of the local point"""
    h = m["pitch"] / 2
    if h - max(abs(x), abs(y)) < eps:
        return False
    if m["type"] == "rect":
        for v, n in ((x, m["subx"]), (y, m["suby"])):
            t = (v + h) * n / m["pitch"]
            if abs(t - round(t)) * m["pitch"] / n < eps:
                return False
        return True
    rr = math.hypot(x, y)
    rs = rings(m)
    if rr < eps or any(abs(rr - q) < eps for q in rs):
        return False
    for k in range(m["azi"]):
        a = 2 * math.pi * k / m["azi"]
        if x * math.cos(a) + y * math.sin(a) > 0 and abs(-x * math.sin(a) + y * math.cos(a)) < eps:
            return False
    return True


def rings(m):
    out, prev = [], 0.0
    for q, n in zip(m["radii"], m["subr"]):
        for j in range(1, n + 1):
            out.append(math.sqrt(prev * prev + (q * q - prev * prev) * j / n))
        prev = q
    return out


def pin_at(g, ix, iy, iz):
    by = lambda l, i: next(q for q in l if q["id"] == i)
    c = g["core"]

    def lat(ax, ay, k):
        a = by(g["asys"], c["asy"][(c["ny"] - 1 - ay) * c["nx"] + ax])
        f = [x for q in a["groups"] for x in q]
        return by(g["lats"], f[len(f) - 1 - k])
    ax = 0
    while ix >= lat(ax, 0, 0)["nx"]:
        ix -= lat(ax, 0, 0)["nx"]
        ax += 1
    ay = 0
    while iy >= lat(0, ay, 0)["ny"]:
        iy -= lat(0, ay, 0)["ny"]
        ay += 1
    l = lat(ax, ay, iz)
    p = by(g["pins"], l["pins"][(l["ny"] - 1 - iy) * l["nx"] + ix])
    return p, by(g["meshes"], p["mesh"])


def rand_point(r, g, eps=1e-5):
    while True:
        c = [r.randrange(g["npx"]), r.randrange(g["npy"]), r.randrange(g["nz"])]
        pin, m = pin_at(g, *c)
        h = g["pitch"] / 2
        x, y = r.uniform(-h, h), r.uniform(-h, h)
        if r.random() < .3 and m["type"] == "cyl":
            rr = r.choice(rings(m)) + r.choice([-1, 1]) * 10 ** r.uniform(-4, -2) * h
            a = r.uniform(0, 2 * math.pi)
            x, y = rr * math.cos(a), rr * math.sin(a)
        if not interior(m, x, y, eps):
            continue
        z0 = sum(g["hzup"][:c[2]])
        z = z0 + g["hzup"][c[2]] * r.uniform(.001, .999)
        return {"c": c, "l": [x, y], "p": [c[0] * g["pitch"] + h + x, c[1] * g["pitch"] + h + y, z],
                "d": rand_dir(r)}


def rand_dir(r):
    while True:
        d = [r.uniform(-1, 1) for _ in range(3)]
        if min(abs(v) for v in d) > .05:
            return d
