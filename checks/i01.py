"""I01 lists in the input text"""
TARGETS = ["h_i01"]


def run(ctx):
    r = ctx.rng
    gen = ctx.generate("TextListMC", "TextListMC" if ctx.quick else "TextListMCbig")
    cases = [{"op": "braces", "text": g["text"]} for g in gen]
    n = ctx.n(600)
    # longer grouped lists, blanks of all kinds, digits 0-9, overflow
    for _ in range(n):
        t = ""
        for _ in range(r.randint(0, 8)):
            k = r.random()
            num = lambda: str(r.choice([r.randint(0, 9), r.randint(10, 99999), 2147483647, 2147483648 if r.random() < .2 else 0]))
            sp = lambda lo=0: "".join(r.choice(" \t\n\r ") for _ in range(r.randint(lo, 2)))
            if k < .5:
                t += sp(0 if t.endswith(("}", "")) and not t[-1:].isdigit() else 1) + num() + sp()
            else:
                inner = sp() + (" " if 1 else "").join(num() for _ in range(r.randint(1 if r.random() < .95 else 0, 4))) + sp()
                t += sp() + "{" + inner + "}" + sp()
        if r.random() < .25 and t:
            p = r.randrange(len(t))
            t = t[:p] + r.choice(["{", "}", "x", "-", ".", ""]) + t[p + (r.random() < .5):]
        cases.append({"op": "braces", "text": list(t)})
    for _ in range(n):
        t = "".join(r.choice(["1", "2", "9", "0", " ", " ", "\n", "\t"] + (["-", "+", "x", "."] if r.random() < .2 else []))
                    for _ in range(r.randint(0, 24)))
        cases.append({"op": "ints", "text": list(t)})
    for t in ["", " ", "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999 1", "1 -2 +3", "- 1",
              "1 2 3.", "3.5", "1,2", "0x10", "007 08", "12 13 a"]:
        cases.append({"op": "ints", "text": list(t)})
    for _ in range(n):
        toks = []
        for _ in range(r.randint(0, 6)):
            k = r.random()
            x = r.choice([r.uniform(-10, 10), 10 ** r.uniform(-30, 30), float(r.randint(-50, 50))])
            toks.append(repr(x) if k < .4 else "%.3e" % x if k < .7 else "%d" % int(x) if abs(x) < 1e9 else "%.4E" % x)
        if r.random() < .2:
            toks.insert(r.randint(0, len(toks)), r.choice(["abc", "1.0,2.0", "x1", "1.0x", "e5", "1e", "+", ".", "{1.0}", "1.0;"]))
        t = "".join(r.choice(["", " ", "\n"]) if i == 0 else r.choice([" ", "  ", "\t", " \n "]) for i in range(1))
        for i, k in enumerate(toks):
            t += k + r.choice([" ", "  ", "\t", "\n ", "\r\n"])
        cases.append({"op": "reals", "text": list(t.rstrip() if r.random() < .5 else t)})
    import itertools
    m = 8 if ctx.quick else 11
    for k in range(m + 1):
        for b in itertools.product((0, 1), repeat=k):
            cases.append({"op": "range", "bits": list(b)})
    for _ in range(60):
        cases.append({"op": "range", "bits": [int(r.random() < .7) for _ in range(r.randint(9, 140))]})
    ctx.conform("h_i01", "TextListTrace", cases, timeout=2)
