"""S01 group sources"""
from swcommon import *
TARGETS = ["h_s01"]


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("SourceMC")
    protos = [[dict(o) for o in s] for s in gen]
    cases = []
    for t in range(ctx.n(150, 1500)):
        ng = r.choice([1, 2, 2, 3, 4, 7])
        sw = r.choice(["moc", "moc", "sn"])
        g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, neg=.1, maxpins=2, maxasy=2, maxsub=2, maxnz=2)
        n = nregs(g, "plane" if sw == "moc" else "hom")
        split = int(sw == "moc" and r.random() < .4)
        vec = lambda lo=0.0: [round(r.uniform(lo, 3), 4) for _ in range(n)]
        flux = lambda: [[round(r.uniform(.01, 5), 4) for _ in range(ng)] for _ in range(n)]
        ext, bad = [], 0
        if r.random() < .35:
            ext = [vec() for _ in range(ng)]
            if r.random() < .2 and n != ng:
                ext = [[round(r.uniform(0, 3), 4) for _ in range(ng)] for _ in range(n)]
                bad = 1
        ops = []
        if t < len(protos) and ng == 2:
            last = -1
            for o in protos[t]:
                if o["g"] != last:
                    ops.append({"k": "init", "g": o["g"]})
                    last = o["g"]
                ops.append({"k": o["k"], "g": o["g"]})
        else:
            for _ in range(r.randint(1, 4)):
                gg = r.randrange(ng)
                ops.append({"k": "init", "g": gg})
                mid = [k for k in ("fission", "scatter", "aux", "leak", "flux", "old", "fsrc", "scatter") if r.random() < .5]
                r.shuffle(mid)
                if r.random() < .15:
                    mid.append("scale")
                for k in mid:
                    ops.append({"k": k, "g": gg})
                for _ in range(r.randint(1, 3)):
                    ops.append({"k": "self", "g": gg})
                    if r.random() < .5:
                        ops.append({"k": "flux", "g": gg})
        seen = False
        out = []
        for o in ops:
            if o["k"] == "leak" and sw != "moc":
                continue
            if o["k"] == "init":
                seen = False
            if o["k"] == "scatter":      # once per group, as the protocol asks
                if seen:
                    continue
                seen = True
            o["v"] = {"fission": vec, "aux": lambda: vec(-3.0), "leak": lambda: vec(-3.0), "scale": lambda: vec(.1), "flux": flux,
                      "self": lambda: vec(.1) if r.random() < .5 else [], "fsrc": lambda: round(r.uniform(.5, 1.5), 4)}.get(o["k"], list)()
            o["ang"] = r.randrange(4)
            out.append(o)
        swx = moc_xml(r, spacing="0.3", q='<ang_quad type="cg" n_azimuthal="2" n_polar="1"/>', more='tl_splitting="t"' if split else "") \
            if sw == "moc" else sn_xml(r)
        xml = wrap(g, lx) + "\n" + swx + '<source scattering="P0" %s/>' % ('file="ext.h5"' if ext else "")
        cases.append({"xml": xml, "lib": lib, "sw": sw, "n": n, "ng": ng, "split": split, "ext": ext, "badext": bad, "phi0": flux(), "ops": out})
    ctx.conform("h_s01", "SourceTrace", cases, timeout=20, merge=slim)
