"""S05 thread counts and interleavings"""
from swcommon import *
from s03 import mquad
TARGETS = ["p_s05"]
NOTE = "All interleavings of small programs in the model; the code runs under schedules taken from the model, random ones, and one directed preemption at every kind of conflicting access found (dependences that need two preemptions inside one thread are outside the bound)."


def plans(r, gen, n):
    """schedules from the model for some thread counts, and random ones"""
    out = []
    for _ in range(n):
        nt = r.choice([2, 2, 3, 4, 7])
        s = r.choice(gen) if gen and r.random() < .6 else [r.randrange(60) for _ in range(r.choice([1, 3, 17, 101]))]
        out.append({"threads": nt, "schedule": s})
    return out


def case(r, gen, quick):
    ng = r.choice([1, 2, 2, 3, 5])
    ms, lib, lx = materials(r, ng, [1, 2, 3])
    kind = r.choice(["sn", "sn", "moc", "moc", "2d3d"])
    mode = r.choice(["sweep", "sweep", "eig"])
    g = geo.rand_geometry(r, mats=[1, 2, 3], maxpins=2, maxasy=2 if kind == "sn" else 1, maxsub=2, azi=(4,), maxnz=3)
    q, nd = mquad(r)
    iters = r.choice([1, 2, 3])
    upd = r.choice(["gs", "jacobi"])
    nin = r.choice([1, 2])
    dim = "2d" if g["nz"] == 1 else "3d"

    def sx(u):
        sn = lambda eq, ax: sn_xml(r, n_inner=nin, eq=eq, ax=ax, upd=u, q=q)
        if kind == "sn":
            return sn("dd", "dd")
        mo = moc_xml(r, n_inner=nin, q=q, upd=upd, spacing="%.4f" % (g["pitch"] * .5))
        if kind == "moc":
            return mo
        return '<sweeper type="2d3d" %s>%s%s%s</sweeper>' % (
            m2, q, sn("cdd", ax).replace("<sweeper", "<sn_sweeper").replace("</sweeper", "</sn_sweeper"),
            mo.replace("<sweeper", "<moc_sweeper").replace("</sweeper", "</moc_sweeper"))
    ax = r.choice(["dd", "sc", "fw"])
    m2 = 'relax="%s" expose_sn="%s"' % (r.choice(["1.0", "0.5"]), r.choice("tf"))
    x1, xn = sx("jacobi"), sx(upd)
    if mode == "eig":
        cm = r.choice(["t", "t", "f"])
        if kind == "2d3d":
            cm = "t"
        f = '\n<solver type="eigenvalue" k_tol="1e-12" psi_tol="1e-12" max_iter="%d" cmfd="%s"><source scattering="P0"/>%%s<cmfd k_tol="1e-9" psi_tol="1e-9" residual_reduction="1e-9" max_iter="100"/></solver>' % (iters, cm)
        x1, xn = f % x1, f % xn
    else:
        x1, xn = ['\n' + x + '\n<source scattering="P0"/>' for x in (x1, xn)]
    return {"mode": mode, "kind": kind, "xml": wrap(g, lx), "lib": lib, "sx1": x1, "sxn": xn, "iters": iters, "coarse": int(kind == "2d3d" or r.random() < .7),
            "seed": r.randrange(1 << 30), "plans": plans(r, gen, 4 if quick else 10),
            "directed": [{"threads": r.choice([2, 2, 3, 4]), "regions": 4 if quick else 20, "cap": 10 if quick else 40, "each": 4 if quick else 8}]}


def run(ctx):
    r = ctx.rng
    gen = [list(x) for x in sorted({tuple(s) for s in ctx.generate("ThreadsMC")})]
    cases = [case(r, gen, ctx.quick) for _ in range(ctx.n(100, 800))]
    ctx.conform("p_s05", "ThreadsTrace", cases, timeout=200, merge=slim)
