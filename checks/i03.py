"""I03 result files keep what is written to them"""
import struct
import vlib
TARGETS = ["h_i03"]
NAMES = ["a", "b", "c", "k"]
BASE = dict(at=[], p={"abs": True, "w": []}, q={"abs": False, "w": []}, mode="", v=[], dims=[], s="", order="c", rank=1, pre=[0])


def ev(op, **k):
    e = dict(BASE, op=op)
    e.update(k)
    return e


def num(r):
    return r.choice([0.0, -0.0, 1.0, -1.5, 1e300, -1e-300, 5e-324, 2.2250738585072014e-308, 1 / 3, 0.1, r.uniform(-10, 10), r.gauss(0, 1) * 10 ** r.randint(-200, 200)])


def size(d):
    n = 1
    for x in d:
        n *= x
    return n


def path(r, known, deep=True):
    if known and r.random() < .6:
        w = list(r.choice(known))
        if r.random() < .4:
            w.append(r.choice(NAMES))
    else:
        w = [r.choice(NAMES) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return {"abs": r.random() < .5, "w": w[-3:]}


def op(r, known, groups, written):
    at = list(r.choice(groups)) if groups and r.random() < .5 else ([r.choice(NAMES)] if r.random() < .1 else [])
    via = r.choice(["path", "chain", "kept"])
    k = r.random()
    if k < .55:
        w = [r.choice(NAMES)] if r.random() < .75 else path(r, known)["w"]
        p = {"abs": r.random() < .25, "w": w}
        full = (w if p["abs"] else at + w)
        o = r.choice(["group", "group", "vec", "shaped", "reshaped", "iter", "array", "array", "array", "int", "uint", "str", "link", "soft"])
        e = ev(o, at=at, p=p, via=via)
        if o in ("shaped", "reshaped", "iter", "array"):
            e["dims"] = [r.choice([1, 2, 2, 3, 4, 0 if r.random() < .1 else 2]) for _ in range(r.choice([1, 2, 2, 3, 3]))]
            if r.random() < .04:
                e["dims"] = r.choice([[r.randint(40, 300)], [r.randint(7, 20), r.randint(5, 20)], [7, 5, r.randint(3, 9)]])
            e["v"] = [num(r) for _ in range(size(e["dims"]))]
            if o != "array" and r.random() < .2:
                e["v"] = e["v"] + [num(r)] * r.choice([1, 1, 2]) if r.random() < .5 else e["v"][:-1]
            if o == "array":
                e["order"] = r.choice(["c", "c", "f", "rev", "part"])
            elif o == "reshaped":
                e["order"] = r.choice(["c", "c", "rev"])
            if e["order"] == "part":
                e["dims"][-1] = 3
                e["v"] = [num(r) for _ in range(size(e["dims"]))]
                if size(e["dims"]) == 0:
                    e["order"] = "c"
        elif o == "vec":
            e["v"] = [num(r) for _ in range(r.choice([0, 1, 2, 5, 6, 6] if r.random() < .94 else [70, 200, 300]))]
            e["dims"] = [len(e["v"])]
        elif o == "int":
            e["v"] = [float(r.choice([0, 1, -1, 2147483647, -2147483648, r.randint(-1000, 1000)]))]
        elif o == "uint":
            e["v"] = [float(r.choice([0, 1, 4294967296, 2 ** 53, r.randint(0, 10 ** 12)]))]
        elif o == "str":
            e["s"] = r.choice(["", "x", "some text", "two\nlines", "<xml a=\"1\"/>", "long " * 40])
        elif o in ("link", "soft"):
            e["q"] = path(r, known)
            if o == "link" and r.random() < .15:
                e["q"] = {"abs": False, "w": []}
                e["order"] = r.choice(["c", "e"])
        if full not in known:
            known.append(full)
        if o == "group" and full not in groups:
            groups.append(full)
        if o in ("vec", "shaped", "reshaped", "iter", "array"):
            written.append((full, e["dims"]))
        return e
    o = r.choice(["dims", "readvec", "readvec", "read1d", "readarray", "readarray", "readarray", "readint"])
    p = path(r, known)
    d = [2]
    if written and r.random() < .75:
        w, d = r.choice(written)
        p = {"abs": True, "w": w} if w[:len(at)] != at or len(w) == len(at) or r.random() < .3 else {"abs": False, "w": w[len(at):]}
    e = ev(o, at=at, p=p, via=via)
    if o in ("readvec", "read1d"):
        e["pre"] = [r.choice([0, 0, size(d), size(d) + 1])]
    elif o == "readarray":
        e["rank"] = r.choice([len(d), len(d), len(d), 1, 2, 3])
        k = r.random()
        e["pre"] = ([0] * e["rank"] if k < .4 else list(d) if k < .8 and len(d) == e["rank"] else [size(d)] if e["rank"] == 1
                    else [r.choice([1, 2, 3]) for _ in range(e["rank"])] if r.random() < .5 else (sorted(d) + [1, 1])[:e["rank"]])
        e["order"] = r.choice(["c", "c", "f", "rev"]) if e["rank"] > 1 else "c"
    return e


def history(r):
    steps, known, groups, written, has = [], [], [], [], False
    for _ in range(r.choice([1, 2, 2, 3])):
        m = r.choice(["w", "w", "a", "r"]) if not has else r.choice(["a", "a", "r", "r", "w"])
        steps.append(ev("open", mode=m))
        if m == "w":
            has, known, groups, written = True, [], [], []
        if not has:
            continue
        for _ in range(r.randint(1, 14)):
            steps.append(op(r, known, groups, written))
        steps.append(ev("close"))
    return {"steps": steps}


def dbl(x):
    return struct.unpack(">d", struct.pack(">ii", *x))[0]


def run(ctx):
    gen = ctx.generate("StoreMC")
    cases = []
    for g in gen if not ctx.quick else ctx.rng.sample(gen, min(len(gen), 1500)):
        st = g["steps"]
        for e in st:
            e["v"] = [dbl(x) for x in e["v"]]
        cases.append({"steps": st + ([] if st[-1]["op"] in ("close", "open") else [ev("close")])})
    cases += [history(ctx.rng) for _ in range(ctx.n(2500, 40000))]
    ctx.conform("h_i03", "StoreTrace", cases, timeout=20)
