"""D01 planes and the Sn sweep of 2D3D"""
from swcommon import *
from s03 import mquad, moc_case, heights
TARGETS = ["h_d01"]
KT = 1e-9


def xml2d3d(sn, mo, q, more=""):
    return '<sweeper type="2d3d" %s>%s%s%s</sweeper>' % (more, q, sn.replace("<sweeper", "<sn_sweeper").replace("</sweeper", "</sn_sweeper"),
                                                        mo.replace("<sweeper", "<moc_sweeper").replace("</sweeper", "</moc_sweeper"))


def leak_case(r):
    ng = r.choice([1, 2, 2, 4])
    g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, neg=0, maxpins=2, maxasy=2, maxsub=1, azi=(4,), maxnz=4)
    q, nd = mquad(r)
    relax = r.choice([1.0, .5, .25, .8])
    tl = int(r.random() < .85)
    sn = sn_xml(r, n_inner=1, eq="cdd", ax=r.choice(["dd", "sc", "fw"]), upd="gs", q=q)
    mo = moc_xml(r, n_inner=1, q=q, upd="gs", spacing="%.4f" % (g["pitch"] * .3))
    more = 'relax="%g"' % relax if relax != 1 or r.random() < .5 else ""
    if not tl:
        more += ' tl="f"'
    mod = r.choice([1, 1, 1, 2])
    if mod > 1:
        more += ' moc_modulo="2"'
    ina = r.choice([0, 0, 0, 1])
    if ina:
        more += ' inactive_moc="1"'
    return {"kind": "leak", "xml": wrap(g, lx) + xml2d3d(sn, mo, q, more) + '<source scattering="P0"/>', "lib": lib, "ng": ng, "nx": g["npx"], "ny": g["npy"],
            "hz": g["hzup"], "h": heights(g), "group": [p + 1 for p, k in enumerate(g["subplane"]) for _ in range(k)], "relax": relax, "tl": tl,
            "seed": r.randrange(1 << 30), "ops": [{"g": k % ng, "moc": int((k // ng) % mod == 0 and k // ng >= ina)} for k in range(r.choice([2, 4, 6]))]}


def mats(r, g, ng, thin):
    """every group has a source everywhere"""
    ms = [geo.rand_material(r, ng, "m%d" % i, fissile=True) for i in range(3)]
    t = max(m["ab"][a] + sum(m["sc"][b][a] for b in range(ng)) for m in ms for a in range(ng))
    f = r.uniform(.3, thin) / (g["pitch"] * t)
    for m in ms:
        c = [r.random() + .05 for _ in range(ng)]
        m["chi"] = [x / sum(c) for x in c]
        m.update({k: [x * f for x in m[k]] for k in ("ab", "nf", "f")}, sc=[[x * f for x in y] for y in m["sc"]])
    return geo.lib_text(ms, ng, [round(1e7 / 10 ** i, 6) for i in range(ng)]), geo.matlib_xml("lib.xsl", [(i + 1, m["name"]) for i, m in enumerate(ms)])


def solver(sx, cm='cmfd="t"', child='<cmfd enabled="f"/>', n=800):
    return '\n<solver type="eigenvalue" k_tol="%g" psi_tol="%g" max_iter="%d" %s><source scattering="P0"/>%s%s</solver>' % (KT, KT * 10, n, cm, sx, child)


def flat_case(r):
    """flat problem: the plane, the Sn sweep coupled to it, and the Sn sweep
    with the factors and cross sections written by the coupled run"""
    ng = r.choice([1, 2, 3])
    cyl = r.random() < .3
    g = geo.rand_geometry(r, mats=[1, 2, 3], kinds=("cyl",) if cyl else ("rect",), maxpins=2, maxasy=2, maxsub=2, azi=(4,), maxnz=1)
    lib, lx = mats(r, g, ng, 1.5)
    g["bc"]["top"] = g["bc"]["bottom"] = "reflect"
    q, nd = mquad(r)
    upd = r.choice(["gs", "jacobi"])
    nin = r.choice([1, 2, 3])
    sn = sn_xml(r, n_inner=nin, eq="cdd", ax=r.choice(["dd", "sc", "fw"]), upd=upd, q=q)
    mo = moc_xml(r, n_inner=nin, q=q, upd=upd, spacing="%.4f" % (g["pitch"] * (.02 if cyl else .2)))
    alone = sn.replace("<sweeper", '<sweeper', 1).replace("</sweeper>", '<data file="data.h5"/></sweeper>')
    kw = dict(n=1500)
    runs = [{"solver": solver(xml2d3d(sn, mo, q, 'expose_sn="f" dump_corrections="t"'), **kw), "file": "data.h5", "what": "", "must": 0, "kt": 1, "pt": 1},
            {"solver": solver(xml2d3d(sn, mo, q, 'expose_sn="t"'), **kw), "file": "b.h5", "what": "flux of the Sn sweep is not that of the plane", "must": 1, "kt": 1e-7, "pt": 2e-6},
            {"solver": solver(mo, **kw), "file": "c.h5", "what": "plane of a flat problem differs from the plain MoC solution", "must": 1, "kt": 1e-7, "pt": 2e-6},
            {"solver": solver(alone, cm='cmfd="f"', child="", **kw), "file": "d.h5", "what": "Sn problem with the written factors differs from the coupled one", "must": 1, "kt": 1e-6, "pt": 2e-5}]
    return {"kind": "flat", "xml": wrap(g, lx), "lib": lib, "ng": ng, "max": 1500, "runs": runs}


def file_case(r, files):
    """as written by other cores of the same radial size; planes of the core are single ones"""
    np_ = 3
    ng, na = r.choice([1, 2]), r.choice([4, 8])
    cols, rows = [[r.randint(1, 2) for _ in range(r.randint(1, 2))] for _ in "xy"]
    st = geo.rand_material(r, 1, "m", fissile=False)
    lib, lx = geo.lib_text([st], 1, [1e7]), geo.matlib_xml("lib.xsl", [(1, "m")])

    def planes(n):
        return geo.rand_geometry(r, mats=[1], kinds=("rect",), maxsub=1, shape={"cols": cols, "rows": rows, "groups": [r.choice([1, 1, 2]) for _ in range(n)]})
    fx, tags = [], []
    for f in files:
        fx.append({"xml": wrap(planes(f["n"]), lx), "id": f["id"], "name": "f%d.h5" % f["id"]})
        at = ' file="f%d.h5"' % f["id"]
        if f["lo"] != 0 or r.random() < .5:
            at += ' bottom_plane="%d"' % f["lo"]
        if f["hi"] != np_ - 1 or r.random() < .5:
            at += ' top_plane="%d"' % f["hi"]
        tags.append("<data%s/>" % at)
    return {"kind": "file", "xml": wrap(planes(np_), lx) + "<sweeper>" + "".join(tags) + "</sweeper>", "lib": lib, "files": fx, "data": files, "np": np_, "ng": ng,
            "na": na, "nx": sum(cols), "ny": sum(rows)}


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("CorrectMC")
    cases = [dict(moc_case(r, big=False, coarse=1), kind="corr") for _ in range(ctx.n(40, 300))]
    cases += [leak_case(r) for _ in range(ctx.n(60, 800))]
    cases += [flat_case(r) for _ in range(ctx.n(40, 600))]
    if ctx.quick:
        # more of those in which every file fits its planes
        fit = [f for f in gen if all(q["hi"] < 3 and q["n"] in (1, q["hi"] - q["lo"] + 1) for q in f)]
        several = [f for f in fit if any(q["n"] > 1 and q["lo"] for q in f)]
        gen = r.sample(gen, min(len(gen), 150)) + r.sample(fit, min(len(fit), 60)) + r.sample(several, min(len(several), 40)) + [f for f in fit if len(f) == 1]
    cases += [file_case(r, f) for f in gen]
    ctx.conform("h_d01", "CorrectTrace", cases, timeout=120, merge=slim)
