"""C02 the same answer with and without acceleration"""
from swcommon import *
from s03 import mquad
TARGETS = ["h_c02"]
KT = 1e-9


def case(r, big=False):
    ng = r.choice([1, 2, 2, 3])
    kind = r.choice(["sn", "sn", "sn", "cdd", "moc", "moc", "2d3d"])
    flat = kind in ("moc", "2d3d") or r.random() < .3
    cyl = kind in ("sn", "cdd") or r.random() < .2
    g = geo.rand_geometry(r, mats=[1, 2, 3], kinds=("cyl", "rect") if cyl else ("rect",), maxpins=2, maxasy=2 if kind != "2d3d" else 1, maxsub=2,
                          azi=(4,), maxnz=1 if flat else 3)
    # every group has a source everywhere; half of the problems have thin cells
    mats = [geo.rand_material(r, ng, "m%d" % i, fissile=True) for i in range(3)]
    for m in mats:
        c = [r.random() + .05 for _ in range(ng)]
        m["chi"] = [x / sum(c) for x in c]
    thin = r.random() < .6
    if thin:
        h = max([g["pitch"]] + [sum(g["hzup"][i:i + k]) for i, k in zip([sum(g["subplane"][:j]) for j in range(len(g["subplane"]))], g["subplane"])])
        t = max(m["ab"][a] + sum(m["sc"][b][a] for b in range(ng)) for m in mats for a in range(ng))
        f = r.uniform(.2, .7) / (h * t)
        for m in mats:
            m.update({k: [x * f for x in m[k]] for k in ("ab", "nf", "f")}, sc=[[x * f for x in y] for y in m["sc"]])
    lib = geo.lib_text(mats, ng, [round(1e7 / 10 ** i, 6) for i in range(ng)])
    lx = geo.matlib_xml("lib.xsl", [(i + 1, m["name"]) for i, m in enumerate(mats)])
    if g["nz"] == 1:
        g["bc"]["top"] = g["bc"]["bottom"] = "reflect"
    q, nd = mquad(r)
    upd = r.choice(["gs", "jacobi"])
    nin = r.choice([2, 3, 5])
    ax = r.choice(["dd", "sc"])
    sn = sn_xml(r, n_inner=nin, eq="dd" if kind == "sn" else "cdd", ax=ax if kind == "sn" else r.choice(["dd", "sc", "fw"]), upd=upd, q=q)
    mo = moc_xml(r, n_inner=nin, q=q, upd=upd, spacing="%.4f" % (g["pitch"] * (.05 if cyl else .2)))
    if kind in ("sn", "cdd"):
        sx = sn
    elif kind == "moc":
        sx = mo
    else:
        sx = '<sweeper type="2d3d" %s>%s%s%s</sweeper>' % ("", q, sn.replace("<sweeper", "<sn_sweeper").replace("</sweeper", "</sn_sweeper"),
                                                          mo.replace("<sweeper", "<moc_sweeper").replace("</sweeper", "</moc_sweeper"))
    def sol(cm, child):
        return '\n<solver type="eigenvalue" k_tol="%g" psi_tol="%g" max_iter="%d" %s><source scattering="P0"/>%s%s</solver>' % (KT, KT * 10, 1500, cm, sx, child)
    acc = '<cmfd k_tol="1e-8" psi_tol="1e-8" residual_reduction="%s" max_iter="%d"/>' % (r.choice(["1e-3", "1e-5"]), r.choice([20, 100]))
    runs = [{"solver": sol('cmfd="t"', '<cmfd enabled="f"/>') if kind == "2d3d" or r.random() < .3 else sol('cmfd="f"', "")},
            {"solver": sol('cmfd="t"', acc)}]
    return {"kind": kind, "xml": wrap(g, lx), "lib": lib, "runs": runs, "ng": ng, "thin": int(thin), "max": 1500, "ktol": KT * 1.0001, "ptol": KT * 10.001}


def run(ctx):
    ctx.model("AccelMC")
    r = ctx.rng
    cases = [case(r) for _ in range(ctx.n(600, 12000))]
    ctx.conform("h_c02", "AccelTrace", cases, timeout=300, merge=slim)
