"""K01 random streams"""
import geo
TARGETS = ["h_k01"]
MUL, MASK = 2806196910506780709, (1 << 63) - 1


def limbs(v):
    return [(v >> (15 * i)) & 32767 for i in range(5)]


def before(state):
    """the state whose successor is `state`"""
    return ((state - 1) * pow(MUL, -1, 1 << 63)) & MASK


EDGE = [0, 1, 2, MASK, MASK - 1, MASK - 255, MASK - 256, MASK - 511, MASK - 512, MASK - 1024, 1 << 62, (1 << 62) - 1,
        (1 << 53), (1 << 53) + 1, 1 << 31, 1 << 32]


def cdf(r):
    k = r.random()
    n = r.randint(1, 8 if r.random() < .8 else 40)
    p = [r.random() if r.random() < .7 else 0.0 for _ in range(n)]
    if not sum(p):
        p[r.randrange(n)] = 1.0
    t = sum(p)
    c, s = [], 0.0
    for x in p:
        s += x / t
        c.append(s)
    if k < .3:
        # entries after the last possible one, end a little short of one
        c = [min(x, 1 - 2**-53 * r.randint(1, 40)) for x in c]
    elif k < .8:
        last = max(i for i in range(n) if p[i])
        c = c[:last] + [1.0] * (n - last)
    return c


def op(r):
    k = r.choice(["next", "unit", "upto", "range", "int", "cdf", "cdf", "copy", "jump", "jump"])
    o = {"k": k if k != "copy" else "next"}
    if k == "upto":
        o["hi"] = r.choice([1.0, 2.0, 6.283185307179586, 0.37, 1e-3, 12345.678, r.uniform(.1, 9)])
    if k == "range":
        lo = r.choice([0.0, -1.0, -5.0, .5, 1.0, 100.0, r.uniform(-9, 9)])
        o["lo"], o["hi"] = lo, lo + r.choice([1.0, .5, 2.0, 1e-6, r.uniform(.1, 9)])
    if k == "int":
        o["n"] = r.choice([1, 2, 3, 7, 10, 1000, 2**31 - 1, 2**30, r.randint(1, 10**6)])
    if k == "cdf":
        o["c"] = cdf(r)
    if k == "jump":
        b = r.choice([0, 1, 2, 3, 8, 14, 31, 32, 33, 40, 62, 63, 64])
        o["n"] = limbs(r.randrange(1 << b) if r.random() < .7 else min((1 << b) + r.randint(-2, 2), (1 << 64) - 1) if b > 2 else b)
    return o


def run(ctx):
    r = ctx.rng
    ctx.model("LcgMC")
    cases = []
    for s in EDGE:                        # every kind of value at the ends of the range
        ops = []
        for o in ([{"k": "next"}, {"k": "unit"}] + [{"k": "upto", "hi": h} for h in (1.0, 1.5, 6.283185307179586, 1e-3)] +
                  [{"k": "range", "lo": a, "hi": b} for a, b in ((0.0, 1.0), (.5, 1.0), (1.0, 2.0), (-1.0, 1.0), (100.0, 100.5), (0.0, .3))] +
                  [{"k": "int", "n": n} for n in (1, 2, 3, 10, 1 << 30, (1 << 31) - 1)] +
                  [{"k": "cdf", "c": c} for c in ([1.0], [.5, 1.0], [.2, .7, 1 - 2**-50], [.25, .5, 1 - 2**-53], [.3, 1.0, 1.0])]):
            ops += [{"k": "seed", "s": limbs(before(s))}, o]
        cases.append({"op": "ops", "seed": limbs(1), "ops": ops})
    for _ in range(ctx.n(150, 2500)):
        seed = r.choice([1, r.randrange(1 << 63), r.randrange(1 << 64), before(r.choice(EDGE))])
        cases.append({"op": "ops", "seed": limbs(seed), "ops": [op(r) for _ in range(r.randint(1, 10))]})
    # histories of the particle pusher: one pin, everything fissions at the first collision
    x = 1.0
    lib = "one\n1 1\n1e7\nXSMACRO f 0\n%s %s %s 1.0\n0.0\n" % (x, x * 1.0, x)
    xml = ('<material_lib path="lib.xsl"><material id="1" name="f"/></material_lib>'
           '<mesh id="1" type="rect" pitch="400.0"><sub_x>1</sub_x><sub_y>1</sub_y></mesh><pin id="1" mesh="1">1</pin>'
           '<lattice id="1" nx="1" ny="1">1</lattice><assembly id="1" np="1" hz="400.0"><lattices>1</lattices></assembly>'
           '<core nx="1" ny="1" north="vacuum" south="vacuum" east="vacuum" west="vacuum" top="vacuum" bottom="vacuum">1</core>')
    for k in range(ctx.n(12, 150)):
        seed = r.choice([1, 3, r.randrange(1, 1 << 30, 2)])
        ids = [r.choice([0, 1, 2, 9999, 10000, 429495, 429496, 429497, 429498, 858994, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32), r.randrange(10**6)]) for _ in range(8)]
        cases.append({"op": "hist", "seed": limbs(seed), "xstr": x, "xml": xml, "lib": lib, "hist": [{"id": limbs(i)} for i in ids]})
    ctx.conform("h_k01", "LcgTrace", cases, timeout=20, merge=slim)


def slim(c, o):
    import vlib
    return {"in": {k: v for k, v in c.items() if k not in ("xml", "lib")}, "out": vlib.norm_out(o)}
