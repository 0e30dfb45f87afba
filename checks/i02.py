"""An input is carried through if it is consistent and refused otherwise."""
import copy, struct
import geo, vlib
from geo import fl

TARGETS = ["h_run"]
NOTE = "inputs with one mistake enumerated by TLC, several mistakes in random inputs; the program is run on each"
SIDES = ["east", "north", "west", "south", "top", "bottom"]
REAL = {"pitch", "radii", "hz", "ktol", "ptol", "spacing", "cktol", "cptol", "cres", "lo", "hi"}


def dec(v):
    if isinstance(v, list) and len(v) == 2 and all(isinstance(q, int) for q in v):
        return struct.unpack(">d", struct.pack(">ii", *v))[0]
    return [dec(q) for q in v]


def unpack(x):
    if isinstance(x, dict):
        return {k: (dec(v) if k in REAL else unpack(v)) for k, v in x.items()}
    return [unpack(q) for q in x] if isinstance(x, list) else x


def el(n, a=(), t="", k=()):
    return {"n": n, "a": list(a), "t": t, "k": list(k)}


def words(v):
    return " ".join(fl(q) if isinstance(q, float) else str(q) for q in v)


def tree(x):
    o = []
    for m in x["meshes"]:
        k = [el("radii", t=words(m["radii"])), el("sub_radii", t=words(m["subr"])), el("sub_azi", t=str(m["azi"]))] if m["type"] == "cyl" else \
            [el("sub_x", t=str(m["subx"])), el("sub_y", t=str(m["suby"]))]
        o.append(el("mesh", [("id", m["id"]), ("type", m["type"]), ("pitch", fl(m["pitch"]))], k=k))
    o.append(el("material_lib", [("path", "lib.xsl")], k=[el("material", [("id", m["id"]), ("name", m["name"])]) for m in x["mats"]]))
    for p in x["pins"]:
        o.append(el("pin", [("id", p["id"]), ("mesh", p["mesh"])], words(p["mats"])))
    for l in x["lats"]:
        o.append(el("lattice", [("id", l["id"]), ("nx", l["nx"]), ("ny", l["ny"])], words(l["pins"])))
    for a in x["asys"]:
        g = " ".join("{%s}" % words(q) if len(q) != 1 else str(q[0]) for q in a["groups"])
        one = len(a["hz"]) == a["np"] and len(set(a["hz"])) == 1
        o.append(el("assembly", [("id", a["id"]), ("np", a["np"])] + ([("hz", fl(a["hz"][0]))] if one else []),
                    k=([] if one else [el("hz", t=words(a["hz"]))]) + [el("lattices", t=g)]))
    c = x["core"]
    o.append(el("core", [("nx", c["nx"]), ("ny", c["ny"])] + list(zip(SIDES, c["bc"])), words(c["asy"])))
    s = x["solver"]
    if s["type"] == "eigenvalue_mc":
        box = [(q + e, fl(v)) for e, w in (("_min", s["lo"]), ("_max", s["hi"])) for q, v in zip("xyz", w)]
        o.append(el("solver", [("type", s["type"]), ("cycles", s["cycles"]), ("inactive_cycles", s["inactive"]), ("particles_per_cycle", s["particles"]),
                               ("seed", s["seed"])], k=[el("fission_box", box)]))
        return o
    q = el("ang_quad", [("type", s["quad"])] + ([("order", s["order"])] if s["quad"] != "cg" else [("n_azimuthal", s["nazi"]), ("n_polar", s["npol"])]))
    def sweeper(n, t, qs):
        return el(n, [("type", t), ("n_inner", s["inner"]), ("boundary_update", s["update"])] +
                  ([("equation", s["equation"]), ("axial", s["axial"])] if t == "sn" else []),
                  k=qs + ([el("rays", [("spacing", fl(s["spacing"])), ("volume_correction", s["corr"])])] if t == "moc" else []))
    sw = sweeper("sweeper", s["sweeper"], [q]) if s["sweeper"] != "2d3d" else \
        el("sweeper", [("type", "2d3d")], k=[q, sweeper("sn_sweeper", "sn", []), sweeper("moc_sweeper", "moc", [])])
    at = [("flux_tol", fl(s["ptol"])), ("max_iter", s["max"])] if s["type"] == "fixed_source" else \
        [("k_tol", fl(s["ktol"])), ("psi_tol", fl(s["ptol"])), ("max_iter", s["max"]), ("min_iter", s["min"]), ("cmfd", "ft"[s["cmfd"]])]
    k = [sw, el("source", [("scattering", s["scatter"])])]
    if s["cmfd"]:
        k.append(el("cmfd", [("k_tol", fl(s["cktol"])), ("psi_tol", fl(s["cptol"])), ("residual_reduction", fl(s["cres"])), ("max_iter", s["cmax"])]))
    o.append(el("solver", [("type", s["type"])] + at, k=k))
    return o


def text(o):
    return "".join("<%s%s>%s%s</%s>\n" % (e["n"], "".join(' %s="%s"' % a for a in e["a"]), e["t"], text(e["k"]), e["n"]) for e in o)


def walk(o):
    for e in o:
        yield o, e
        yield from walk(e["k"])


def spoil(o, b):
    """leave out what b names; False if there is no such thing"""
    if "/" in b:
        n, a = b.split("/")
        for _, e in walk(o):
            if e["n"] == n and any(q[0] == a for q in e["a"]):
                e["a"] = [q for q in e["a"] if q[0] != a]
                return True
        return False
    if b.endswith("!"):
        n = b[:-1].split(".")
        for _, e in walk(o):
            if e["n"] == n[-1] and e["t"]:
                w = e["t"].split()
                w[len(w) // 2] = "x" + w[len(w) // 2]
                e["t"] = " ".join(w)
                return True
        return False
    if b == "assembly+hz":
        for _, e in walk(o):
            if e["n"] == "assembly":
                if any(k["n"] == "hz" for k in e["k"]):
                    e["a"].append(("hz", "1.0"))
                else:
                    e["k"].insert(0, el("hz", t=words([1.0] * abs(dict(e["a"])["np"]))))
                return True
        return False
    if b in ("source+file", "source+file!"):
        for _, e in walk(o):
            if e["n"] == "source":
                e["a"].append(("file", "in.xml" if b.endswith("!") else "absent.h5"))
                return True
        return False
    if b == "core+":
        o += [copy.deepcopy(e) for e in o if e["n"] == "core"]
        return True
    n = b.split(".")[-1]
    if b == "assembly.hz":
        for _, e in walk(o):
            if e["n"] == "assembly" and any(a[0] == "hz" for a in e["a"]):
                e["a"] = [a for a in e["a"] if a[0] != "hz"]
                return True
    for p, e in walk(o):
        if e["n"] == n:
            del p[next(i for i, q in enumerate(p) if q is e)]
            return True
    return False


LIB = {}


def library(r, names):
    """materials that multiply strongly, so that no run dies out"""
    out = []
    for n in names:
        m = geo.rand_material(r, 2, n, True)
        m["ab"], m["f"] = [3., 4.], [2., 3.]
        m["nf"], m["chi"] = [9., 12.], [1., 0.]
        m["sc"] = [[3., .0], [1., 4.]]
        out.append(m)
    return geo.lib_text(out, 2)


def case(r, x, bad):
    o = tree(x)
    kept, cut, lib = [], 0, library(r, x["lib"])
    files = {}
    for b in bad:
        if b == "document.cut":
            cut = 1
        elif b == "library":
            lib = None
        elif b == "library.cut":
            lib = lib and "\n".join(lib.split("\n")[:-1 - r.randint(1, 8)]) + "\n"
        elif not spoil(o, b):
            continue
        kept.append(b)
    t = text(o)
    if cut:
        t = t[:t.rindex("</")]
    files["in.xml"] = t
    if lib is not None:
        files["lib.xsl"] = lib
    return {"kind": "run", "x": x, "bad": kept, "files": files, "args": ["in.xml"], "lim": 20, "results": False}


def rsolver(r, top):
    t = r.choice(["sn", "sn", "moc", "moc", "mc", "2d3d"])
    s = {"type": "eigenvalue", "ktol": r.choice([1e-3, 1e-5]), "ptol": 1e-4, "max": r.randint(1, 4), "min": r.randint(0, 1), "sweeper": t, "inner": r.randint(1, 2),
         "update": r.choice(["gs", "jacobi"]), "scatter": "P0", "quad": r.choice(["ls", "cg"]), "order": r.choice([2, 4]), "nazi": r.randint(1, 2), "npol": r.randint(1, 2),
         "equation": "dd", "axial": r.choice(["dd", "sc"]), "spacing": r.choice([.2, .15, .3]), "corr": r.choice(["none", "flat", "angle"]),
         "cycles": r.randint(1, 3), "inactive": r.randint(0, 1), "particles": r.randint(20, 60), "seed": r.choice([1, 3, 7]),
         "lo": [q * r.uniform(.05, .4) for q in top], "hi": [q * r.uniform(.5, .95) for q in top]}
    s.update(cmfd=t == "2d3d" or r.random() < .3, cktol=1e-4, cptol=1e-4, cres=.1, cmax=10)
    if t == "2d3d":
        s["equation"] = "cdd"
    if t in ("sn", "moc") and r.random() < .3:
        s["type"] = "fixed_source"
        s["min"] = 0
    if t == "mc":
        s["type"], s["sweeper"] = "eigenvalue_mc", "sn"
    return s


def rinput(r):
    g = geo.rand_geometry(r, kinds=("cyl", "rect"), azi=(2, 4, 8), maxsub=2, maxpins=2, maxnz=2, samelat=r.random() < .7, stack=.3)
    names = ["a", "b", "c", "d"][:r.randint(3, 4)]
    r.shuffle(names)
    x = {"lib": names, "mats": [{"id": i + 1, "name": r.choice(names)} for i in range(3)], "meshes": g["meshes"], "pins": g["pins"], "lats": g["lats"], "asys": g["asys"],
         "core": {"nx": g["core"]["nx"], "ny": g["core"]["ny"], "asy": g["core"]["asy"], "bc": [g["bc"][q] for q in SIDES]},
         "solver": rsolver(r, [g["npx"] * g["pitch"], g["npy"] * g["pitch"], sum(g["hzup"])])}
    if r.random() < .2:
        for k in ("meshes", "pins", "lats", "asys", "mats"):
            r.shuffle(x[k])
    return x


WORDS = {"type": ["", "rect", "cyl", "eigen"], "name": ["", "zz", "a", "b"], "sweeper": ["", "cdd"], "update": ["", "gs", "no"], "scatter": ["", "P0", "P1"],
         "quad": ["", "ls", "cg", "zz"], "equation": ["zz"], "axial": ["dd", "sc", "zz"], "corr": ["none", "flat", "zz"], "bc": ["", "vacuum", "reflect", "periodic"]}


def coarse(r, x):
    """one wide pin in place of as many narrow ones"""
    l = r.choice(x["lats"])
    if l["nx"] != l["ny"] or l["nx"] < 2 or not l["pins"]:
        return
    p = next((p for p in x["pins"] if p["id"] == l["pins"][0]), None)
    m = p and next((m for m in x["meshes"] if m["id"] == p["mesh"]), None)
    if not m:
        return
    x["meshes"].append(dict(m, id=901, pitch=m["pitch"] * l["nx"]))
    x["pins"].append(dict(p, id=902, mesh=901))
    l.update(nx=1, ny=1, pins=[902])


def mutate(r, x):
    if r.random() < .08:
        return coarse(r, x)
    part = r.choice(["meshes", "mats", "pins", "lats", "asys", "core", "solver"])
    it = x[part] if part in ("core", "solver") else r.choice(x[part])
    if part not in ("core", "solver") and r.random() < .08:
        if r.random() < .5 and len(x[part]) > 1:
            x[part].remove(it)
        else:
            x[part].insert(r.randint(0, len(x[part])), copy.deepcopy(it))
        return
    if part == "solver":
        mc = it["type"] == "eigenvalue_mc"
        keys = ["type", "cycles", "inactive", "particles", "seed", "lo", "hi"] if mc else \
            ["type", "ktol", "ptol", "max", "min", "sweeper", "inner", "update", "scatter", "quad", "cmfd"] + (["cktol", "cptol", "cres", "cmax"] if it["cmfd"] else []) + (["order"] if it["quad"] == "ls" else ["nazi", "npol"]) + \
            (["equation", "axial"] if it["sweeper"] != "moc" else []) + (["spacing", "corr"] if it["sweeper"] != "sn" else [])
    else:
        keys = sorted(it)
    if part == "meshes":
        keys = [k for k in keys if k in (("id", "type", "pitch", "radii", "subr", "azi") if it["type"] == "cyl" else ("id", "type", "pitch", "subx", "suby"))]
    k = r.choice(keys)
    known = [q["id"] for q in x["meshes"] + x["pins"] + x["lats"] + x["asys"] + x["mats"]]

    def value(v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, str):
            return r.choice(WORDS[k])
        if isinstance(v, float):
            return r.choice([0., -v, v * 1.5, v * .5, v * 3, -1.])
        return r.choice({"cycles": [-1, 1, 3], "inactive": [-1, 0, 2], "particles": [-1, 30], "azi": [-2, 0, 2, 3, 4, 7, 8, 10], "max": [-1, 0, 1, 3], "cmax": [-1, 1, 8], "order": [-2, 0, 2, 3, 5, 18],
                         "nazi": [-1, 0, 2], "npol": [-1, 0, 2]}.get(k, [-1, 0, 1, 2, 3, v + 1] + ([r.choice(known)] if k not in ("subr", "subx", "suby", "np", "nx", "ny", "inner", "min") else [])))

    def change(v):
        if not isinstance(v, list):
            return value(v)
        v = list(v)
        q = r.random()
        if v and q < .6:
            i = r.randrange(len(v))
            v[i] = change(v[i])
        elif v and q < .8 and k not in ("lo", "hi", "bc"):
            v.pop(r.randrange(len(v)))
        elif v and k not in ("lo", "hi", "bc"):
            v.insert(r.randint(0, len(v)), copy.deepcopy(r.choice(v)))
        return v
    it[k] = change(it[k])
    if k == "groups":
        it[k] = [q for q in it[k] if q]


def slim2(c, o):
    return {"in": {"x": c["x"], "bad": c["bad"]}, "out": {k: v for k, v in vlib.norm_out(o).items() if k in ("exc", "crash", "status", "code", "said", "files")}}


def kind(x):
    s = x["solver"]
    return {"eigenvalue_mc": "mc", "fixed_source": "fixed"}.get(s["type"], s["sweeper"])


def run(ctx):
    r = ctx.rng
    cases, left = [], {}
    for g in ctx.generate("InputMC"):
        x = unpack(g["x"])
        cases.append(case(r, x, g["bad"]))
        for b in g["bad"]:
            left.setdefault(kind(x), []).append(b)
    for _ in range(ctx.n(1200, 20000)):
        x = rinput(r)
        bad = []
        for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2, 2, 3])):
            if r.random() < .1 and not bad:
                bad.append(r.choice(left.get(kind(x), left["sn"])))
            else:
                mutate(r, x)
        cases.append(case(r, x, bad))
    ctx.conform("h_run", "InputTrace", cases, timeout=60, merge=slim2)
