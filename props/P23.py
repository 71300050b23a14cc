import vlib, concurrent.futures as cf

ASSUMPTIONS = ["generators draw from [0,1)", "lower bounds are below upper bounds for real values; integer bounds within 32 bits",
               "that every outcome is possible is decided on lists of up to %d elements, with draws on a grid of twelfths and with the library's own generator over many seeds" % 5]
CFG = "CONSTANTS MaxN = %d\nSPECIFICATION Spec\nINVARIANTS Valid Reached Size Out\n"


def gen(ctx):
    R = ctx.rng
    q = ctx.quick
    out = []
    S = lambda: R.choice([0, 1, R.randint(1, 10**6), 2**31 - 1, 0xA5A5A5A])
    for n in list(range(0, 41)) + [63, 64, 65, 127, 128, 1000]:
        for off in (0, 1, 2, 3):
            out.append({"o": "data", "i": [n, off, R.choice([0, 0, 1, 5, 100]), S()]})
    for _ in range(40 if q else 400):
        out.append({"o": "data", "i": [R.randint(0, 300), R.randint(0, 9), R.choice([0, 1, 50]), S()]})
        out.append({"o": "skip", "i": [R.choice(["data", "vals", "real"]), R.randint(0, 20), R.choice([0, 1, 2, 7, 700]), S()]})
        for t, lo, hi in (("c", -128, 127), ("uc", 0, 255), ("h", -32768, 32767), ("uh", 0, 65535), ("i", -2**31, 2**31 - 1), ("u", 0, 2**31 - 1), ("l", -2**31, 2**31 - 1), ("ul", 0, 2**31 - 1)):
            a = R.choice([lo, hi, R.randint(lo, hi), max(lo, -3), 0])
            b = R.choice([hi, a, min(hi, a + R.randint(0, 7)), R.randint(a, hi)])
            out.append({"o": "vals", "i": [t, R.choice([0, 1, 5, 400]), a, b, S(), R.choice([0, 0, 3])]})
        for t in ("f", "d", "ld"):
            a = R.choice([-1, 0, -1000, R.randint(-10**6, 10**6)])
            out.append({"o": "reals", "i": [t, R.choice([0, 1, 5, 400]), a, a + R.choice([1, 2, 1000, 10**6]), S(), R.choice([0, 0, 3])]})
    for _ in range(400 if q else 6000):
        n = R.choice([0, 1, 2, 3, 5, 9, 30])
        v = [R.randint(0, 100) for _ in range(n)] if R.random() < .7 else [R.randint(0, 2) for _ in range(n)]
        pre = R.choice([0, 0, 1, 9])
        out.append({"o": "perm", "i": [v, S(), pre]})
        out.append({"o": "comb", "i": [v, R.choice([0, n, n + 1, R.randint(0, n)]), S(), pre]})
        out.append({"o": "kpick", "i": [v, R.choice([0, n, n + 1, R.randint(0, n), 1]), S()]})
        out.append({"o": "onepick", "i": [v, S()]})
    for n in range(0, 5):
        out.append({"o": "seeds", "i": ["perm", n, n, 600]})
        out.append({"o": "seeds", "i": ["onepick", n, 1, 600]})
        for k in range(0, n + 2):
            out.append({"o": "seeds", "i": ["comb", n, k, 600]})
            out.append({"o": "seeds", "i": ["kpick", n, k, 600]})
    out += [{"o": "outside", "i": [n, a, b]} for n in (0, 1, 4) for a, b in ((-1, 1), (0, 2), (-3, 7))]
    for n in [70, 257, 300] * (1 if q else 5):
        v = [R.randint(0, 100000) for _ in range(n)]
        for k in (n, n - 1, R.randint(2, n)):
            out.append({"o": "comb", "i": [v, k, S(), R.choice([0, 5])]})
            out.append({"o": "kpick", "i": [v, k, S()]})
        out.append({"o": "perm", "i": [v, S(), R.choice([0, 5])]})
        out.append({"o": "onepick", "i": [v, S()]})
    return out


def canary(r):
    if r["o"] == "perm" and r["r"][0]:
        r["r"][0][0] = 101
    elif r["o"] == "vals" and r["r"][0]:
        r["r"][0][0] = r["i"][3] + 1 if r["i"][3] < 2**31 - 1 else r["i"][2] - 1
    elif r["o"] in ("comb", "onepick", "data", "seeds", "outside"):
        r["r"][0] = 7 if r["o"] == "outside" else r["r"][0] + [0]
    else:
        return None
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["random.cpp"])
        em = vlib.model_check(ctx, "MCRandom", CFG % (4 if q else 5))
        exe = hb.result()
    vlib.bind(ctx, exe, "RandomTrace", em, gen(ctx), canary, lim=60)
