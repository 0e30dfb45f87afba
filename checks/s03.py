"""S03 MoC sweep"""
from swcommon import *
TARGETS = ["h_s03"]


def heights(g):
    """height of each plane group"""
    out, k = [], 0
    for n in g["subplane"]:
        out.append(sum(g["hzup"][k:k + n]))
        k += n
    return out


def mquad(r):
    if r.random() < .3:
        o = r.choice([2, 4])
        return '<ang_quad type="ls" order="%d"/>' % o, o * (o + 2) // 8
    a, p = r.choice([(1, 1), (2, 1), (1, 2), (2, 1)])
    return '<ang_quad type="cg" n_azimuthal="%d" n_polar="%d"/>' % (a, p), a * p


def moc_case(r, big=False, coarse=0, **kw):
    ng = r.choice([1, 1, 2, 2, 4])
    g, lib, lx, inm, bounds = withmats(r, ng=ng, nm=3, neg=.1, maxpins=2, maxasy=2, maxsub=2, azi=(2, 4), maxnz=3, stack=.3, **kw)
    inners = r.choice([1, 1, 2, 3])
    upd = r.choice(["gs", "jacobi"])
    q, nd = mquad(r)
    split = int(r.random() < .3)
    if r.random() < .15:
        g["bc"][r.choice(["north", "south", "east", "west"])] = "prescribed"
    sp = g["pitch"] * r.choice([.4, .6, .8]) * (.7 if big else 1)
    ray = r.choice(["", 'modularity="pin"', 'volume_correction="angle"', 'volume_correction="none" modularity="pin"', 'modularization="trig"'])
    if "trig" in ray:       # very coarse rays make two azimuthal angles one, which is refused
        sp = g["pitch"] * .2
    more = 'tl_splitting="t"' if split else ""
    xml = wrap(g, lx) + "\n" + moc_xml(r, n_inner=inners, upd=upd, q=q, spacing="%.4f" % sp, more=more, raymore=
          ray) \
        + '<source scattering="P0"/>'
    return {"kind": "full", "coarse": coarse, "xml": xml, "lib": lib, "ng": ng, "nd": nd, "gs": int(upd == "gs"), "inners": inners, "bc": bclist(g),
            "h": heights(g), "split": split, "seed": r.randrange(1 << 30), "mp": g["subplane"], "hz": g["hzup"], "q": 0.0,
            "nx": g["npx"], "ny": g["npy"], "pitch": g["pitch"], "group": [p + 1 for p, k in enumerate(g["subplane"]) for _ in range(k)],
            "ops": [{"g": r.randrange(ng), "lo": 0.0 if split else r.choice([0.0, 0.0, -1.0]), "tl": split or int(r.random() < .4)}
                    for _ in range(1 if split else r.choice([1, 2]))]}


def ihm_case(r):
    """one material everywhere, closed on all sides"""
    st = geo.rand_material(r, 1, "m", fissile=False)
    st["sc"] = [[round(r.uniform(.1, .5), 4)]]
    st["ab"] = [round(r.uniform(.3, .9), 4)]
    g = geo.rand_geometry(r, mats=[1], maxpins=2, maxasy=2, maxsub=2, maxnz=2,
                          bc={s: "reflect" for s in ("north", "south", "east", "west", "top", "bottom")})
    lib = geo.lib_text([st], 1, [1e7])
    lx = geo.matlib_xml("lib.xsl", [(1, "m")])
    q, nd = mquad(r)
    upd = r.choice(["gs", "jacobi"])
    xml = wrap(g, lx) + "\n" + moc_xml(r, n_inner=1, upd=upd, q=q, spacing="%.4f" % (g["pitch"] * r.choice([.2, .4])),
                                       raymore=r.choice(["", 'modularity="pin"'])) + '<source scattering="P0"/>'
    return {"kind": "ihm", "coarse": 0, "xml": xml, "lib": lib, "ng": 1, "nd": nd, "q": round(r.uniform(.5, 3), 3), "seed": r.randrange(1 << 30),
            "ops": [{"g": 0, "lo": 0, "tl": 0, "rep": 400}]}


def run(ctx):
    ctx.model("MocSweepMC")
    r = ctx.rng
    cases = [moc_case(r, big=not ctx.quick) for _ in range(ctx.n(40, 300))] + [ihm_case(r) for _ in range(ctx.n(10, 60))]
    ctx.conform("h_s03", "MocSweepTrace", cases, timeout=30, merge=slim)
