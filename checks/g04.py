"""G04 points and tracks inside pins"""
import math, struct
import geo
from geocommon import *
TARGETS = ["h_g04"]


def dec(x):
    if isinstance(x, list) and len(x) == 2 and all(isinstance(v, int) for v in x):
        return struct.unpack(">d", struct.pack(">ii", *x))[0]
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def cuts(m, a, b):
    """(t, kind) of all crossings, for filtering near-coincident ones"""
    out = []
    u, v = b[0] - a[0], b[1] - a[1]
    if m["type"] == "rect":
        for ax, n in ((0, m["subx"]), (1, m["suby"])):
            for k in range(1, n):
                w = (u, v)[ax]
                if abs(w) > 1e-9:
                    out.append((m["pitch"] * k / n - m["pitch"] / 2 - a[ax]) / w)
        return sorted(t for t in out if -.1 < t < 1.1), True
    qa = u * u + v * v
    qb = a[0] * u + a[1] * v
    ok = True
    for q in rings(m):
        disc = qb * qb - qa * (a[0] ** 2 + a[1] ** 2 - q * q)
        if abs(disc) < 1e-5 * qa:
            ok = False
        if disc > 0:
            out += [(-qb - math.sqrt(disc)) / qa, (-qb + math.sqrt(disc)) / qa]
    for k in range(m["azi"]):
        c, s = math.cos(2 * math.pi * k / m["azi"]), math.sin(2 * math.pi * k / m["azi"])
        den = v * c - u * s
        if abs(den) < 1e-6 * math.sqrt(qa):
            if abs(a[0] * s - a[1] * c) < 1e-3:
                ok = False
            continue
        t = (a[0] * s - a[1] * c) / den
        if (a[0] + t * u) * c + (a[1] + t * v) * s > -1e-6:
            out.append(t)
    return sorted(t for t in out if -.1 < t < 1.1), ok


def clean(m, a, b, eps=1e-4):
    t, ok = cuts(m, a, b)
    return ok and all(y - x > eps for x, y in zip(t, t[1:])) and all(eps < x < 1 - eps or x < -eps or x > 1 + eps for x in t)


def edge_point(r, h):
    s = r.uniform(-h, h)
    return r.choice([(s, -h), (s, h), (-h, s), (h, s)])


def through(h, p, d):
    """entry and exit of the line through p along d in the square"""
    lo, hi = -1e9, 1e9
    for x, w in zip(p, d):
        t = sorted([(-h - x) / w, (h - x) / w])
        lo, hi = max(lo, t[0]), min(hi, t[1])
    return [p[0] + lo * d[0], p[1] + lo * d[1]], [p[0] + hi * d[0], p[1] + hi * d[1]]


def mkcase(r, m, tracks=()):
    h = m["pitch"] / 2
    c = {"m": m, "xml": geo.geo_xml({"meshes": [m], "pins": [], "lats": [], "asys": [], "core": {"nx": 0, "ny": 0, "asy": []}, "bc": {}}).split("<core")[0],
         "pts": [], "outs": [], "ons": [], "trs": [], "walks": []}
    while len(c["pts"]) < 10:
        x, y = r.uniform(-h, h), r.uniform(-h, h)
        if r.random() < .4:
            q = 10 ** r.uniform(-6, -2) * h
            x, y = (r.choice([-h + q, h - q]), y) if r.random() < .5 else (x, r.choice([-1, 1]) * q)
        if interior(m, x, y, 1e-8 * h):
            c["pts"].append({"p": [x, y], "d": rand_dir(r)})
    for _ in range(3):
        s = h * (1 + 10 ** r.uniform(-6, 0))
        c["outs"].append({"p": r.choice([[s, r.uniform(-h, h)], [-s, r.uniform(-h, h)], [r.uniform(-h, h), s], [r.uniform(-h, h), -s]])})
    tries = 0
    while len(c["ons"]) < 14 and tries < 400:
        tries += 1
        # a point on exactly one boundary, a direction crossing it well
        d = rand_dir(r)
        if m["type"] == "rect":
            ax = r.randrange(2)
            n = (m["subx"], m["suby"])[ax]
            if n == 1:
                continue
            k = r.randint(1, n - 1)
            p = [r.uniform(-.98 * h, .98 * h), r.uniform(-.98 * h, .98 * h)]
            p[ax] = k * (m["pitch"] / n) - h
            nrm = [1.0 if ax == i else 0.0 for i in range(2)]
        elif r.random() < .5:
            q = r.choice(rings(m))
            a = r.uniform(0, 2 * math.pi)
            p = [q * math.cos(a), q * math.sin(a)]
            nrm = [math.cos(a), math.sin(a)]
        else:
            k = r.randrange(m["azi"])
            a = 2 * math.pi * k / m["azi"]
            q = r.uniform(.02, .98) * h
            p = [q * math.cos(a), q * math.sin(a)]
            if k * 4 % m["azi"] == 0:
                p = [[q, 0.0], [0.0, q], [-q, 0.0], [0.0, -q]][k * 4 // m["azi"]]
            nrm = [-math.sin(a), math.cos(a)]
        if abs(nrm[0] * d[0] + nrm[1] * d[1]) < .1 * math.hypot(d[0], d[1]):
            continue
        e = 1e-6 * m["pitch"]
        if not all(interior(m, p[0] + s * e * d[0], p[1] + s * e * d[1], e * .005) for s in (1, -1)):
            continue
        # no other boundary nearby
        if not all(interior(m, p[0] + s * 50 * e * d[0], p[1] + s * 50 * e * d[1], e * .5) for s in (1, -1)):
            continue
        n = math.sqrt(sum(v * v for v in d))
        c["ons"].append({"p": p, "d": [v / n for v in d]})
    for t in tracks:
        if clean(m, t["a"], t["b"]):
            c["trs"].append(dict(t, first=r.choice([0, 17])))
    k = 0
    while len(c["trs"]) < 6 + len(tracks) and k < 200:
        k += 1
        a, b = edge_point(r, h), edge_point(r, h)
        if a[1] > b[1]:
            a, b = b, a
        if b[1] - a[1] > 1e-3 * h and not (a[0] == b[0] and abs(a[0]) == h) and clean(m, a, b):
            c["trs"].append({"a": list(a), "b": list(b), "first": r.randint(0, 99)})
    k = 0
    while len(c["walks"]) < 8 and k < 200:
        k += 1
        d = rand_dir(r)
        n = math.sqrt(sum(v * v for v in d))
        d = [v / n for v in d]
        p = [r.uniform(-h, h), r.uniform(-h, h)]
        a, b = through(h, p, d[:2])
        if r.random() < .5:
            a = p
            if not interior(m, p[0], p[1], 1e-4 * h):
                continue
        if math.hypot(b[0] - a[0], b[1] - a[1]) > .01 * h and clean(m, a, b):
            a = [max(-h, min(h, v)) for v in a]
            c["walks"].append({"a": a, "b": b, "d": d})
    return c


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("PinMeshMC", "PinMeshMC" if ctx.quick else "PinMeshMCbig")
    by = {}
    for g in gen:
        m = dict(g["m"], pitch=dec(g["m"]["pitch"]), radii=[dec(v) for v in g["m"]["radii"]])
        by.setdefault(str(m), (m, []))[1].append({"a": dec(g["a"]), "b": dec(g["b"])})
    cases = []
    for m, ts in by.values():
        for i in range(0, len(ts), 10):
            cases.append(mkcase(r, m, ts[i:i + 10]))
    for _ in range(ctx.n(180, 1500)):
        pitch = r.choice([1.0, 1.26, r.uniform(.3, 4), r.uniform(.3, 4), r.uniform(.3, 4)])
        many = r.random() < .1
        cases.append(mkcase(r, geo.rand_mesh(r, 1, pitch, azi=(2, 4, 6, 8), maxsub=6 if many else 3, nrings=(4, 5, 6) if many else (1, 1, 2, 3))))
    ctx.conform("h_g04", "PinMeshTrace", cases, timeout=20)
