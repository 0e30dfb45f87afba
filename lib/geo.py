"""Random geometry descriptions, their XML text and material libraries.
A description lists everything in the order in which it is written."""
import math


def rand_mesh(r, mid, pitch, kinds=("cyl", "rect"), azi=(2, 4, 8), maxsub=3, nrings=(1, 1, 2, 3)):
    k = r.choice(kinds)
    if k == "rect":
        return {"id": mid, "type": "rect", "pitch": pitch, "subx": r.randint(1, maxsub), "suby": r.randint(1, maxsub),
                "radii": [], "subr": [], "azi": 1}
    n = r.choice(nrings)
    radii = sorted(round(pitch * r.uniform(0.08, 0.49), 3) for _ in range(n))
    while any(b - a < 0.02 * pitch for a, b in zip(radii, radii[1:])):
        radii = sorted(round(pitch * r.uniform(0.08, 0.49), 3) for _ in range(n))
    return {"id": mid, "type": "cyl", "pitch": pitch, "subx": 1, "suby": 1, "radii": radii,
            "subr": [r.randint(1, maxsub) for _ in range(n)], "azi": r.choice(azi)}


def twin(r, m, mid):
    """another mesh with as many regions and materials"""
    if m["type"] == "rect":
        return dict(m, id=mid, subx=m["suby"], suby=m["subx"])
    k = r.uniform(.55, .95)
    return dict(m, id=mid, radii=[round(x * k, 4) for x in m["radii"]])


def nxs(m):
    return m["subx"] * m["suby"] if m["type"] == "rect" else len(m["radii"]) + 1


def nreg(m):
    return m["subx"] * m["suby"] if m["type"] == "rect" else (sum(m["subr"]) + 1) * m["azi"]


def ids(r, n, hi=60):
    return r.sample(range(1, hi), n)


def rand_geometry(r, shape=None, mats=(1, 2, 3), kinds=("cyl", "rect"), pitch=None, azi=(2, 4, 8), maxsub=3,
                  nmesh=None, npin=None, samelat=True, bc=None, uniform_hz=False, maxpins=3, maxasy=2, maxnz=4,
                  groups=True, minpins=1, twins=.35, stack=0):
    """shape: {cols:[pins per column], rows:[...], groups:[planes per group, bottom first]}"""
    if shape is None:
        nz = r.randint(1, maxnz)
        gs = []
        left = nz
        while left:
            k = r.randint(1, left) if groups and r.random() < .5 else 1
            gs.append(k)
            left -= k
        if stack and r.random() < stack:      # groups of several planes below others
            gs = r.choice([[2, 1], [2, 1], [1, 2], [2, 2], [3, 1], [1, 2, 1]])
        shape = {"cols": [r.randint(minpins, maxpins) for _ in range(r.randint(1, maxasy))],
                 "rows": [r.randint(minpins, maxpins) for _ in range(r.randint(1, maxasy))], "groups": gs}
    cols, rows, gs = shape["cols"], shape["rows"], shape["groups"]
    nz = sum(gs)
    pitch = pitch or r.choice([1.0, 1.26, 0.63, 2.0, r.uniform(0.4, 3.0)])
    nm = nmesh or r.randint(1, 3)
    mesh_ids = ids(r, nm)
    meshes = [rand_mesh(r, i, pitch, kinds, azi, maxsub) for i in mesh_ids]
    if nm > 1 and r.random() < twins:
        meshes[1] = twin(r, meshes[0], mesh_ids[1])
    np_ = npin or r.randint(2, 6)
    pins = []
    for i in ids(r, np_):
        m = r.choice(meshes)
        pins.append({"id": i, "mesh": m["id"], "mats": [r.choice(mats) for _ in range(nxs(m))]})
    # lattices: pool per (nx, ny)
    lats = []
    pool = {}
    lat_ids = iter(ids(r, 50, 400))
    for nx in sorted(set(cols)):
        for ny in sorted(set(rows)):
            pool[nx, ny] = []
            for _ in range(r.randint(1 if twins < 1 and not stack else 2, 3)):
                l = {"id": next(lat_ids), "nx": nx, "ny": ny,
                     "pins": [r.choice(pins)["id"] for _ in range(nx * ny)]}
                if pool[nx, ny] and r.random() < twins:
                    # like one that is there, with pins of as many regions
                    size = {p["id"]: nreg(next(m for m in meshes if m["id"] == p["mesh"])) for p in pins}
                    l["pins"] = [r.choice([q for q in size if size[q] == size[p]]) for p in r.choice(pool[nx, ny])["pins"]]
                pool[nx, ny].append(l)
                lats.append(l)
    if uniform_hz:
        hz = [r.choice([1.0, 2.5])] * nz
    else:
        hz = [round(r.uniform(0.3, 4.0), 2) for _ in range(nz)]
    asys = []
    grid = {}
    apool = {}
    aid = iter(ids(r, 50, 300))
    for ay, ny in enumerate(rows):
        for ax, nx in enumerate(cols):
            if (nx, ny) in apool and r.random() < .4:
                grid[ax, ay] = r.choice(apool[nx, ny])["id"]
                continue
            grp = []
            for k in gs:
                l = r.choice(pool[nx, ny])["id"]
                if samelat or r.random() < .7:
                    grp.append([l] * k)
                else:
                    grp.append([r.choice(pool[nx, ny])["id"] for _ in range(k)])
            # written top first
            a = {"id": next(aid), "np": nz, "hz": hz[::-1], "groups": [g[::-1] for g in grp[::-1]]}
            asys.append(a)
            apool.setdefault((nx, ny), []).append(a)
            grid[ax, ay] = a["id"]
    nax, nay = len(cols), len(rows)
    core = {"nx": nax, "ny": nay, "asy": [grid[ax, ay] for ay in range(nay - 1, -1, -1) for ax in range(nax)]}
    if bc is None:
        bc = {s: r.choice(["vacuum", "reflect"]) for s in ("north", "south", "east", "west", "top", "bottom")}
    return {"meshes": meshes, "pins": pins, "lats": lats, "asys": asys, "core": core, "bc": bc,
            "npx": sum(cols), "npy": sum(rows), "nz": nz, "pitch": pitch, "hzup": hz, "subplane": gs}


def fl(x):
    return repr(float(x))


def geo_xml(g, r=None, attr_hz=True):
    o = []
    for m in g["meshes"]:
        o.append('<mesh id="%d" type="%s" pitch="%s">' % (m["id"], m["type"], fl(m["pitch"])))
        if m["type"] == "cyl":
            o.append("<radii>%s</radii><sub_radii>%s</sub_radii><sub_azi>%d</sub_azi>" % (
                " ".join(fl(x) for x in m["radii"]), " ".join(map(str, m["subr"])), m["azi"]))
        else:
            o.append("<sub_x>%d</sub_x><sub_y>%d</sub_y>" % (m["subx"], m["suby"]))
        o.append("</mesh>")
    for p in g["pins"]:
        o.append('<pin id="%d" mesh="%d">%s</pin>' % (p["id"], p["mesh"], " ".join(map(str, p["mats"]))))
    for l in g["lats"]:
        rows = [" ".join(map(str, l["pins"][i * l["nx"]:(i + 1) * l["nx"]])) for i in range(l["ny"])]
        o.append('<lattice id="%d" nx="%d" ny="%d">\n%s\n</lattice>' % (l["id"], l["nx"], l["ny"], "\n".join(rows)))
    for a in g["asys"]:
        same = len(set(a["hz"])) == 1
        gs = " ".join(("{%s}" % " ".join(map(str, q))) if len(q) > 1 else str(q[0]) for q in a["groups"])
        if same and attr_hz:
            o.append('<assembly id="%d" np="%d" hz="%s"><lattices>%s</lattices></assembly>' % (a["id"], a["np"], fl(a["hz"][0]), gs))
        else:
            o.append('<assembly id="%d" np="%d"><hz>%s</hz><lattices>%s</lattices></assembly>' % (
                a["id"], a["np"], " ".join(fl(x) for x in a["hz"]), gs))
    c = g["core"]
    bc = " ".join('%s="%s"' % kv for kv in sorted(g["bc"].items()))
    o.append('<core nx="%d" ny="%d" %s>\n%s\n</core>' % (c["nx"], c["ny"], bc, "\n".join(
        " ".join(map(str, c["asy"][i * c["nx"]:(i + 1) * c["nx"]])) for i in range(c["ny"]))))
    return "\n".join(o)


# -------------------------------------------------------------- materials
def rand_material(r, ng, name, fissile=None, tight=None):
    fissile = r.random() < .5 if fissile is None else fissile
    ab = [round(r.uniform(0.01, 0.6), 5) for _ in range(ng)]
    f = [round(r.uniform(0.005, 0.9) * a, 5) if fissile else 0.0 for a in ab]
    nf = [round(2.4 * x, 5) for x in f]
    chi = [0.0] * ng
    if fissile:
        n = r.randint(1, ng)
        c = [r.random() + .05 for _ in range(n)]
        chi = [round(x / sum(c), 6) for x in c] + [0.0] * (ng - n)
    sc = [[0.0] * ng for _ in range(ng)]          # [to][from]
    for fr in range(ng):
        for to in range(ng):
            if to == fr:
                sc[to][fr] = round(r.uniform(0.02, 0.6), 5) if r.random() < .9 else 0.0
            elif to > fr:
                sc[to][fr] = round(r.uniform(0.001, 0.2), 5) if r.random() < .6 else 0.0
            else:
                sc[to][fr] = round(r.uniform(0.001, 0.05), 5) if r.random() < .25 else 0.0
    return {"name": name, "ab": ab, "nf": nf, "f": f, "chi": chi, "sc": sc}


def lib_text(mats, ng, bounds=None):
    bounds = bounds or [round(1e7 / 10 ** i, 6) for i in range(ng)]
    o = ["library", "%d %d" % (ng, len(mats)), " ".join(fl(b) for b in bounds)]
    for m in mats:
        o.append("XSMACRO %s 0" % m["name"])
        for g in range(ng):
            o.append(" ".join(fl(x) for x in (m["ab"][g], m["nf"][g], m["f"][g], m["chi"][g])))
        for row in m["sc"]:
            o.append(" ".join(fl(x) for x in row))
    return "\n".join(o) + "\n"


def matlib_xml(path, assign):
    return '<material_lib path="%s">%s</material_lib>' % (
        path, "".join('<material id="%d" name="%s" />' % kv for kv in assign))
