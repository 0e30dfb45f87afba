"""S06 pin flux"""
from swcommon import *
from s03 import mquad, heights
TARGETS = ["h_s06"]


def case(r, seq, big):
    ng = r.choice([1, 2, 3, 3, 5])
    g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, maxpins=3 if big else 2, maxasy=2, maxsub=3, azi=(2, 4), maxnz=4, stack=.3)
    kind = r.choice(["sn", "moc", "moc", "2d3d", "2d3d"])
    q, nd = mquad(r)
    expose = int(r.random() < .6)
    if kind == "sn":
        sx = sn_xml(r)
    else:
        sx = moc_xml(r, q=q, spacing="%.4f" % (g["pitch"] * .5))
        if kind == "2d3d":
            sx = '<sweeper type="2d3d" expose_sn="%s">%s<sn_sweeper type="sn" n_inner="1" equation="cdd" axial="%s">%s</sn_sweeper>%s</sweeper>' % (
                "ft"[expose], q, r.choice(["dd", "sc", "fw"]), q, sx.replace("<sweeper", "<moc_sweeper").replace("</sweeper", "</moc_sweeper"))
    fsr = int(kind != "sn" and r.random() < .5)
    if fsr:
        tag = "<sweeper type=\"moc\"" if kind == "moc" else "<moc_sweeper type=\"moc\""
        assert tag in sx
        sx = sx.replace(tag, tag + ' dump_fsr_flux="t"', 1)
    npl = g["npx"] * g["npy"]
    grp = [p for p, k in enumerate(g["subplane"]) for _ in range(k)]
    n = {"pin": npl * g["nz"], "plane": npl * len(g["subplane"])}
    ops = []
    for t in seq:
        t = "pin" if t == 1 else "plane"
        ops.append({"t": t, "g": r.randrange(ng), "want": [round(r.uniform(.05, 4), 4) for _ in range(n[t])]})
    return {"kind": kind, "expose": expose, "rep": "sn" if kind == "sn" else "moc", "xml": wrap(g, lx) + "\n" + sx, "lib": lib, "ng": ng, "seed": r.randrange(1 << 30),
            "pin": [grp[z] * npl + i + 1 for z in range(g["nz"]) for i in range(npl)], "hpin": [g["hzup"][z] for z in range(g["nz"]) for i in range(npl)],
            "npp": n["plane"], "npl": npl, "npy": g["npy"], "fsr": fsr,
            "vol": [g["hzup"][z] * g["pitch"] ** 2 for z in range(g["nz"]) for i in range(npl)],
            "hgrp": [sum(g["hzup"][z] for z in range(g["nz"]) if grp[z] == p) for p in range(len(g["subplane"]))], "ops": ops,
            "dead": [i + 1 for i in range(n["plane"]) if r.random() < .3] if kind == "sn" and r.random() < .4 else []}


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("PinFluxMC")
    gen = [list(x) for x in sorted({tuple(s) for s in gen})]
    cases = [case(r, s, not ctx.quick) for s in gen for _ in range(ctx.n(40, 400))]
    ctx.conform("h_s06", "PinFluxTrace", cases, timeout=20, merge=slim)
