"""A01 angular quadratures"""
import math
TARGETS = ["h_a01"]


def case(kind, order=0, nazi=0, npol=0, user=(), newalpha=(), bad=0, xml=None):
    if xml is None:
        if kind == "ls":
            xml = '<ang_quad type="ls" order="%d" />' % order
        elif kind == "user":
            xml = '<ang_quad type="user">%s</ang_quad>' % "".join(u["xml"] for u in user)
        else:
            xml = '<ang_quad type="%s" n_azimuthal="%d" n_polar="%d" />' % (kind, nazi, npol)
    return {"kind": kind, "order": order, "nazi": nazi, "npol": npol, "user": list(user), "newalpha": list(newalpha),
            "bad": bad, "xml": xml}


def user_set(r, n):
    w = [r.uniform(.1, 1) for _ in range(n)]
    s = sum(w)
    w = [x / s for x in w]
    w[-1] = 1.0 - sum(w[:-1])
    us = []
    for i in range(n):
        al, th = r.uniform(.05, 1.5), r.uniform(.05, 1.5)
        d = [math.sin(th) * math.cos(al), math.sin(th) * math.sin(al), math.cos(th)]
        if r.random() < .5:
            x = '<angle weight="%r" alpha="%r" theta="%r" />' % (w[i], al, th)
        else:
            x = '<angle weight="%r" ox="%r" oy="%r" oz="%r" />' % (w[i], *d)
        us.append({"d": d, "w": w[i], "xml": x})
    return us


def new_azi(r, n):
    """azimuths moved a little, still in order"""
    a = [(2 * i + 1) * math.pi / (4 * n) for i in range(n)]
    q = math.pi / (4 * n)
    return [x + r.uniform(-.95, .95) * q for x in a]


def run(ctx):
    r = ctx.rng
    ctx.model("AngQuadMC")
    cs = [case("ls", order=o) for o in range(2, 17, 2)]
    for na in range(1, 9 if ctx.quick else 33):
        for np_ in range(1, 5 if ctx.quick else 9):
            cs.append(case("cg", nazi=na, npol=np_))
            cs.append(case("cg", nazi=na, npol=np_, newalpha=new_azi(r, na)))
        cs.append(case("cy", nazi=na, npol=3))
        cs.append(case("cy", nazi=na, npol=3, newalpha=new_azi(r, na)))
    if ctx.quick:
        for na, np_ in ((16, 2), (12, 6), (1, 8), (5, 5), (24, 1), (32, 8), (3, 7)):
            cs.append(case("cg", nazi=na, npol=np_))
            cs.append(case("cg", nazi=na, npol=np_, newalpha=new_azi(r, na)))
        cs += [case("cy", nazi=na, npol=3) for na in (12, 16, 24, 32)]
    for _ in range(ctx.n(20)):
        n = r.randint(1, 6 if r.random() < .8 else 15)
        cs.append(case("user", user=user_set(r, n)))
        u = user_set(r, n)
        al = [math.atan2(q["d"][1], q["d"][0]) for q in u]
        cs.append(case("user", user=u, newalpha=[min(1.55, max(.02, a + r.uniform(-.1, .1))) for a in al]))
    for t in ("chebyshev-gauss", "Chebyshev-Gauss", "CG", " cg "):
        cs.append(dict(case("cg", nazi=3, npol=2), xml='<ang_quad type="%s" n_azimuthal="3" n_polar="2" />' % t))
    for t in ("LS", "level-symmetric"):
        cs.append(dict(case("ls", order=6), xml='<ang_quad type="%s" order="6" />' % t))
    cs.append(dict(case("cy", nazi=4, npol=3), xml='<ang_quad type="chebyshev-yamamoto" n_azimuthal="4" n_polar="3" />'))
    for o in (-4, -2, -1, 0, 1, 3, 7, 15, 17, 18, 20, 100):
        cs.append(case("ls", order=o, bad=1))
    for k, a, p in (("cg", 0, 1), ("cg", 1, 0), ("cg", -1, 2), ("cg", 2, -3), ("cy", 4, 2), ("cy", 4, 1), ("cy", 0, 3),
                    ("cy", 3, 4)):
        cs.append(case(k, nazi=a, npol=p, bad=1))
    for x in ('<ang_quad />', '<ang_quad type="gauss" order="4"/>', '<ang_quad type="ls" />', '<angquad type="ls" order="4"/>',
              '<ang_quad type="cg" n_azimuthal="4" />', '<ang_quad type="cg" n_polar="4" />',
              '<ang_quad type="user" />', '<ang_quad type="user"><angle weight="0.5" alpha="0.5" theta="0.6"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0" alpha="2.5" theta="0.6"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0" alpha="0.5" theta="-0.6"/></ang_quad>',
              '<ang_quad type="user"><angle weight="-1.0" alpha="0.5" theta="0.6"/><angle weight="2.0" alpha="0.7" theta="0.6"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0" ox="0.5" oy="0.5" oz="0.6"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0" ox="0.5" oy="0.5"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0" ox="0.6" oy="0.48" oz="0.64" alpha="0.4"/></ang_quad>',
              '<ang_quad type="user"><angle weight="1.0"/></ang_quad>'):
        cs.append(case("ls", bad=1, xml=x))
    ctx.conform("h_a01", "AngQuadTrace", cs, timeout=20)
