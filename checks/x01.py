"""X01 material libraries"""
import re
import geo
TARGETS = ["h_x01"]


def token(s):
    num = bool(re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s))
    i = bool(re.fullmatch(r"\d{1,8}", s))
    return {"s": s, "num": num, "int": i, "v": float(s) if num else 0.0, "n": int(s) if i else 0}


def lines_of(text):
    o = []
    for l in text.split("\n"):
        l = l.split("!")[0].strip()
        if l:
            o.append([token(t) for t in l.split()])
    return o


def mk(text, assign):
    return {"lib": text, "xml": geo.matlib_xml("lib.xsl", [(a["id"], a["name"]) for a in assign]),
            "lines": lines_of(text), "assign": assign}


def from_hist(r, h):
    (ng, nm), kinds = h[0], h[1:]
    num = lambda: "%.5g" % r.uniform(.01, 2)
    row = {"one": 1, "two": 2, "four": 4}
    o = ["title", "%d %d" % (ng, nm)]
    names = []
    for k in kinds:
        if k == "junk":
            o.append(r.choice(["x y", "XSMACRO", "XSMACRO A", "XSMACRO A zero", "xsmacro A 0", "XSMACRO A 0 0"]))
        elif k in ("A", "B"):
            names.append(k)
            o.append("XSMACRO %s 0" % k)
        else:
            o.append(" ".join(num() for _ in range(row[k])))
    ids = r.sample(range(1, 90), 2)
    return mk("\n".join(o) + "\n", [{"id": i, "name": n} for i, n in zip(ids, sorted(set(names)))])


def decorate(r, text):
    """the same library with comments, blank lines and odd spacing"""
    o = []
    for l in text.split("\n"):
        while r.random() < .15:
            o.append(r.choice(["", "! comment", "   ", "\t! 1 2 3"]))
        l = re.sub(" ", lambda m: r.choice([" ", "  ", "\t", " "]), l)
        if r.random() < .3:
            l = "  " + l
        if r.random() < .3:
            l += r.choice([" ! trailing 4 5", "   ", "!x"])
        o.append(l)
    return "\n".join(o)


def break_it(r, text):
    ls = [l for l in text.split("\n") if l]
    k = r.randrange(2, len(ls))
    t = ls[k].split()
    how = r.choice(["drop line", "drop token", "word", "extra", "truncate", "dup line", "head", "swap",
                    "header", "header", "same name", "same name"])
    heads = [i for i, l in enumerate(ls) if "XSMACRO" in l]
    if how == "header":
        h = r.choice(heads)
        nm = ls[h].split()[1]
        ls[h] = r.choice(["XSMACRO %s" % nm, "XSMACRO %s 0 0" % nm, "MACRO %s 0" % nm, "XSMACRO %s x" % nm, "xsmacro %s 0" % nm,
                          "XSMACRO%s 0" % nm, "XSMACRO %s -1" % nm, "XSMACRO %s 1.5" % nm])
        return "\n".join(ls) + "\n"
    if how == "same name":
        if len(heads) > 1:
            a, b = r.sample(heads, 2)
            ls[a] = ls[b]
        return "\n".join(ls) + "\n"
    if how == "drop line":
        del ls[k]
    elif how == "drop token" and len(t) > 1:
        del t[r.randrange(len(t))]
        ls[k] = " ".join(t)
    elif how == "word":
        t[r.randrange(len(t))] = r.choice(["abc", "nan0", "--1", "x"])
        ls[k] = " ".join(t)
    elif how == "extra":
        ls[k] += " 0.5"
    elif how == "truncate":
        ls = ls[:k]
    elif how == "dup line":
        ls.insert(k, ls[k])
    elif how == "swap" and k + 1 < len(ls):
        ls[k], ls[k + 1] = ls[k + 1], ls[k]
    else:
        ls[1] = r.choice(["0 1", "2", "x y", "", "-1 2", "1.5 2"]) or ls[1]
    return "\n".join(ls) + "\n"


def run(ctx):
    r = ctx.rng
    hist = ctx.generate("MatLibMC")
    r.shuffle(hist)
    full = [h for h in hist if len(h) >= 5]
    cases = [from_hist(r, h) for h in full[:ctx.n(500, 6000)] + hist[:100]]
    for body in ("1.0\nXSMACRO A 0\n", "XSMACRO A 0\nXSMACRO A 0\n", "\n"):
        cases.append(mk("title\n0 1\n" + body, [{"id": 1, "name": "A"}]))
    for _ in range(ctx.n(260, 3000)):
        ng, nm = r.choice([1, 2, 2, 3, 7, 11]), r.randint(1, 4 if r.random() < .9 else 8)
        mats = [geo.rand_material(r, ng, "mat-%d.%d" % (i, r.randint(0, 9))) for i in range(nm)]
        for m in mats:
            if r.random() < .3:
                m["chi"] = [x * 3 for x in m["chi"]]
            if r.random() < .15:
                m["sc"][r.randrange(ng)][r.randrange(ng)] = -.01
        text = geo.lib_text(mats, ng)
        pick = r.sample(mats, r.randint(1, nm))
        ids = r.sample(range(1, 500), len(pick) + 1)
        assign = [{"id": i, "name": m["name"]} for i, m in zip(ids, pick)]
        if r.random() < .2:
            assign.append({"id": ids[-1], "name": pick[0]["name"]})
        k = r.random()
        if k < .12:
            assign[r.randrange(len(assign))]["name"] = r.choice(["absent", "mat", "", pick[0]["name"] + "x"])
        elif k < .2 and len(assign) > 1:
            assign[1]["id"] = assign[0]["id"]
        elif k < .6:
            text = break_it(r, text)
        if r.random() < .4:
            text = decorate(r, text)
        cases.append(mk(text, assign))
    ctx.conform("h_x01", "MatLibTrace", cases, timeout=20)
