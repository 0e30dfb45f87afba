"""E01 eigenvalue iterations"""
from swcommon import *
from s03 import mquad
TARGETS = ["h_e01"]
GOOD, BAD = (.05, .5, .9), (1.15, 2., 30.)


def scripted(r, mode, mn, mx, kinds, pool):
    g, lib, lx, ng = r.choice(pool)
    fis = r.random() < .9
    kt, pt = [(1e-3, 1e-3), (1e-2, 1e-5), (1e-6, 1e-3), (1e-4, 1e-2)][r.randrange(4)]
    steps = [{"k": r.choice(GOOD if a else BAD), "p": r.choice(GOOD if b else BAD)} for a, b in kinds]
    while len(steps) < mx + 1:
        steps.append({"k": r.choice(GOOD + BAD), "p": r.choice(GOOD + BAD)})
    plane = r.randrange(2)
    ask = sorted(r.choice([[], [], [1], [2], [1, 2], [2, 4], [3, 1], [1, 1, 2], [0, 1], [9, 2], [2, 2]]), key=lambda _: r.random()) if mode == "eig" else []
    n = nregs(g, "plane" if plane else "true")
    ext = [[round(r.uniform(0, 2), 4) for _ in range(n)] for _ in range(ng)] if mode == "fix" else []
    q = '<ang_quad type="ls" order="2"/>'
    dump = "<dump_iterations>%s</dump_iterations>" % " ".join(map(str, ask)) if ask else ""
    if mode == "eig":
        sol = '<solver type="eigenvalue" k_tol="%r" psi_tol="%r" max_iter="%d" %s %s><sweeper type="script">%s</sweeper><source scattering="P0"/>%s</solver>' % (
            kt, pt, mx, 'min_iter="%d"' % mn if mn or r.random() < .5 else "", r.choice(["", 'cmfd="f"']), q, dump)
    else:
        sol = '<solver type="fixed_source" flux_tol="%r" max_iter="%d"><source file="source.h5" scattering="P0"/><sweeper type="script">%s</sweeper></solver>' % (pt, mx, q)
    return {"mode": mode, "real": 0, "uniform": 0, "plane": plane, "seed": r.randrange(1 << 30), "xml": wrap(g, lx) + "\n" + sol, "lib": lib, "ng": ng,
            "min": mn, "max": mx, "ktol": kt, "ptol": pt, "steps": steps, "ask": sorted(set(ask)), "ext": ext, "rep": "", "nz": g["nz"],
            "npx": g["npx"], "npy": g["npy"], "subplane": g["subplane"]}


def pools(r, n, nm=None):
    out = []
    while len(out) < n:
        ng = r.choice([1, 2, 3, 3, 5])
        g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=nm or r.choice([1, 2, 3]), maxpins=2, maxasy=1, maxsub=2, azi=(2, 4), maxnz=3)
        if nregs(g, "true") <= 40:
            out.append((g, lib, lx, ng))
    return out


def real(r, mode, uniform, big):
    ng = r.choice([1, 2, 3, 3, 5])
    ms, lib, lx = materials(r, ng, [1, 2, 3])
    g = geo.rand_geometry(r, mats=[1] if uniform else [1, 2] if mode == "eig" else [1, 2, 3], maxpins=2, maxasy=1, maxsub=2, azi=(4,), maxnz=3, bc={s: "reflect" for s in ("north", "south", "east", "west", "top", "bottom")} if uniform else None)
    q, nd = mquad(r)
    rep = r.choice(["sn", "moc"])
    sx = sn_xml(r, n_inner=3, q=q) if rep == "sn" else moc_xml(r, n_inner=3, q=q, spacing="%.4f" % (g["pitch"] * .4))
    kt, pt = r.choice([(1e-6, 1e-6), (1e-3, 1e-2), (1e-2, 1e-4)]) if not uniform else (1e-7, 1e-7)
    mx = 800 if uniform else r.choice([3, 12, 40])
    mn = r.choice([0, 0, 2])
    n = nregs(g, "hom" if rep == "sn" else "plane")
    e = [round(r.uniform(.1, 2), 4) for _ in range(ng)]
    ext = [[e[k] if uniform else round(r.uniform(0, 2), 4) for _ in range(n)] for k in range(ng)] if mode == "fix" else []
    if mode == "eig":
        sol = '<solver type="eigenvalue" k_tol="%r" psi_tol="%r" max_iter="%d" min_iter="%d" cmfd="f"><source scattering="P0"/>%s</solver>' % (kt, pt, mx, mn, sx)
    else:
        sol = '<solver type="fixed_source" flux_tol="%r" max_iter="%d"><source file="source.h5" scattering="P0"/>%s</solver>' % (1e-7, 2000 if uniform else mx, sx)
    return {"mode": mode, "real": 1, "uniform": int(uniform), "plane": 0, "seed": 1, "xml": wrap(g, lx) + "\n" + sol, "lib": lib, "ng": ng,
            "min": mn, "max": mx, "ktol": kt, "ptol": pt, "steps": [], "ask": [], "ext": ext, "rep": rep, "nz": g["nz"],
            "npx": g["npx"], "npy": g["npy"], "subplane": g["subplane"]}


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("PowerIterMC")
    pool = pools(r, 12)
    if ctx.quick:
        gen = r.sample(gen, min(len(gen), 300))
    cases = [scripted(r, "eig", mn, mx, kinds, pool) for mn, mx, kinds in gen]
    for _ in range(ctx.n(60, 600)):
        mx = r.randint(5, 15)
        cases.append(scripted(r, "eig", r.randint(0, mx), mx, [], pool))
    cases += [real(r, "eig", i % 2 == 0, not ctx.quick) for i in range(ctx.n(60, 500))]
    ctx.conform("h_e01", "PowerIterTrace", cases, timeout=60, merge=slim)
