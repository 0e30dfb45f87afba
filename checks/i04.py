"""I04 command-line amendments and case names"""
import json
from xml.sax.saxutils import escape, quoteattr
from swcommon import *
from e01 import real
import xml.etree.ElementTree as ET
import vlib
TARGETS = ["h_run"]


def text(e, top=True):
    """tree -> xml"""
    inner = "".join(escape(t) for t in e["t"]) + "".join(text(k, False) for k in e["k"])
    if top:
        return "<?xml version=\"1.0\"?>\n" + inner
    return "<%s%s>%s</%s>" % (e["n"], "".join(" %s=%s" % (a["n"], quoteattr(a["v"])) for a in e["a"]), inner, e["n"])


def tree(xml):
    """xml -> tree, without text that is only space"""
    def conv(x):
        t = x.text or ""
        return {"n": x.tag, "a": [{"n": k, "v": v} for k, v in x.attrib.items()], "t": [t] if t.strip() else [], "k": [conv(k) for k in x]}
    return {"n": "", "a": [], "t": [], "k": [conv(k) for k in ET.fromstring("<r>" + xml + "</r>")]}


def word(w):
    if w["w"] == "file":
        return w["dir"] + ".".join(w["base"])
    if w["w"] == "amend":
        return "/".join(w["path"]) + ("" if w["eq"] == 0 else "=" * (w["eq"] - 1) + "=" + w["v"])
    return {"-a": "-a", "dash": "-b"}[w["w"]]


def case(t, ws, kind="parse", name=None):
    f = [w for w in ws if w["w"] == "file"]
    files = {w["dir"] + ".".join(w["base"]): text(t) for w in f}
    for k in list(files):
        if k.startswith("./"):
            files[k[2:]] = files.pop(k)
    return {"kind": kind, "tree": t, "ws": ws, "files": files, "args": [word(w) for w in ws]}


NAMES = ["a", "b", "core", "x", "y"]
VALUES = ["1", "", "a<b", "x&y", "1 2  3", "-5", "\"q\"", "p/q", "#", ".5", "long " * 20, "'"]


def rtree(r, depth=0, n=""):
    ns = r.sample(NAMES, r.randint(0, 3)) if depth else []
    kids = [rtree(r, depth + 1, r.choice(NAMES)) for _ in range(r.randint(1 if not depth else 0, 3 if depth < 3 else 0))]
    if not depth and r.random() < .4:
        kids.insert(r.randint(0, len(kids)), {"n": "case_name", "a": [], "t": [r.choice(["mycase", "c.d", "e"])], "k": []})
    return {"n": n, "a": [{"n": x, "v": r.choice(VALUES)} for x in ns], "t": [r.choice(["some", "1 2", "t<u"])] if depth and r.random() < .5 else [], "k": kids}


def rpath(r, t):
    p = []
    while True:
        names = [k["n"] for k in t["k"]] + [a["n"] for a in t["a"]]
        if not names or r.random() < .1:
            p.append(r.choice(NAMES + [""]))
            return p
        n = r.choice(names)
        p.append(n)
        k = [x for x in t["k"] if x["n"] == n]
        if not k or r.random() < .25:
            return p
        t = k[0]


FILES = [("", ["in", "xml"]), ("", ["in"]), ("", ["in", "v2", "xml"]), ("./", ["in"]), ("./", ["in", "xml"]), ("d.x/", ["in"]), ("d.x/", ["in", "xml"]), ("d/e/", ["case", "inp"])]


def rline(r, t):
    ws = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        ws += [[{"w": "-a"}, {"w": "amend", "path": rpath(r, t), "eq": r.choice([1] * 12 + [0, 2]), "v": r.choice(VALUES)}]]
    d, b = r.choice(FILES)
    ws.insert(r.randint(0, len(ws)), [{"w": "file", "dir": d, "base": b}])
    return sum(ws, [])


SAFE = [(["solver", "max_iter"], ["5", "2", "3", "4"]), (["solver", "k_tol"], ["1e-9", "1e-2"]), (["solver", "psi_tol"], ["1e-9", "1e-1"]), (["case_name"], ["other", "n.m"])]


def runs(r, i):
    e = real(r, "eig", i % 2 == 0, False)
    t = tree(e["xml"])
    if r.random() < .5:
        t["k"].insert(0, {"n": "case_name", "a": [], "t": ["mine"], "k": []})
    ws = []
    new = json.loads(json.dumps(t))
    for p, vs in SAFE:
        if r.random() < .6:
            continue
        x = new
        for n in p[:-1]:
            x = next((k for k in x["k"] if k["n"] == n), None) if x else None
        if not x:
            continue
        v = r.choice(vs)
        a = [y for y in x["a"] if y["n"] == p[-1]]
        k = [y for y in x["k"] if y["n"] == p[-1]]
        if a and not k:
            a[0]["v"] = v
        elif k and not a:
            k[0]["t"] = [v]
        else:
            continue
        ws += [[{"w": "-a"}, {"w": "amend", "path": p, "eq": 1, "v": v}]]
    r.shuffle(ws)
    d, b = r.choice(FILES)
    f = {"w": "file", "dir": d, "base": b}
    ws.insert(r.randint(0, len(ws)), [f])
    c = case(t, sum(ws, []), "run")
    c["files"]["lib.xsl"] = e["lib"]
    c["files2"] = {"plain.xml": text(new), "lib.xsl": e["lib"]}
    c["args2"] = ["plain.xml"]
    return c


def slim4(c, o):
    return {"in": {k: c[k] for k in ("kind", "tree", "ws")}, "out": {k: v for k, v in vlib.norm_out(o).items() if k != "text"}}


def run(ctx):
    r = ctx.rng
    cases = [case(g["tree"], g["ws"]) for g in ctx.generate("AmendMC")]
    for _ in range(ctx.n(1500, 20000)):
        t = rtree(r)
        cases.append(case(t, rline(r, t)))
    cases += [runs(r, i) for i in range(ctx.n(30, 300))]
    ctx.conform("h_run", "AmendTrace", cases, timeout=60, merge=slim4)
