import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["the combination printer is given distinct strings; the statistics are taken of whole numbers below 1000 in magnitude and at most seven per row or column",
               "the address and period parsers are examples that also serve as the repository's tests: open findings on them are listed, other inputs have four dot separated parts, or four groups of a number and its unit",
               "randomness comes from the clock: the clock is set"]
CFG = 'CONSTANTS Kind = "%s"\nAlpha = {%s}\nMaxLen = %d\nSPECIFICATION Spec\nINVARIANTS StreamRight Sums PeriodRight Out\n'
TOOLS = ["wordfreq", "numstats", "glober", "hexview", "combinations", "randomizer", "random_line", "parsers"]


def gen(ctx):
    R = ctx.rng
    q = ctx.quick
    out = []
    for _ in range(150 if q else 1800):
        w = ["".join(R.choice("aAbBzZ" if R.random() < .5 else "ab") for _ in range(R.choice([1, 1, 2, 3, 8, 14, 15, 16, 40]))) for _ in range(R.randint(1, 12))]
        t = []
        for _ in range(R.choice([0, 1, 5, 40, 250])):
            t += B(R.choice(w)) + R.choice([[32], [10], [10, 10], B("'"), [13, 10], B(", "), [200], [64], [91], [96], [123], [0], B("1"), B("-"), [9]])
        out.append({"o": "words", "i": [R.choice([0, 1, 0, 1, 2]), t[:R.choice([len(t), len(t), max(0, len(t) - 1)])]]})
        rows = []
        width = R.randint(0, 7)
        for _ in range(R.randint(0, 7)):
            toks = []
            for _ in range(R.choice([width, width, R.randint(0, 7)])):
                v = R.choice([R.randint(0, 999), R.randint(-999, 999), R.randint(0, 5)])
                toks.append(R.choice([str(v), str(v), str(v), "+" + str(abs(v)) if v else "0", "00%d" % abs(v), R.choice(["abc", "-", "1x", "--1", "x1", "1-"])]))
            s = ""
            for t in toks:
                s += t + R.choice([",", " ", ", ", " , ", "  "])
            rows.append(R.choice(["", "", " ", ","]) + (s if R.random() < .5 else s.rstrip(", ")))
        t = "\n".join(rows) + R.choice(["", "\n", "\n\n"])
        out.append({"o": "stats", "i": [R.choice([0, 1, 0, 1, 2]), B(t)]})
        pats = ["".join(R.choice("ab.*?*?") for _ in range(R.randint(0, 5))) for _ in range(R.randint(0, 5))]
        ls = ["".join(R.choice("ab.") for _ in range(R.randint(0, 6))) for _ in range(R.randint(0, 8))]
        out.append({"o": "glob", "i": [[B(p) for p in pats], B("\n".join(ls) + R.choice(["", "\n"]))]})
        n = R.choice([0, 1, 15, 16, 17, 31, 32, 33, R.randint(0, 100), R.choice([255, 256, 257, 300])])
        out.append({"o": "hex", "i": [[R.choice([R.randint(0, 255), R.randint(30, 34), R.randint(125, 130), 10, 13, 0]) for _ in range(n)]]})
        items = set("".join(R.choice("abAB1_ ~") for _ in range(R.randint(0, 4))) for _ in range(R.randint(0, 7)))
        items = list(items)
        R.shuffle(items)
        out.append({"o": "combos", "i": [[B(R.choice([str(R.randint(0, 4)), str(R.randint(0, 8)), str(len(items)), "x", "-1", "", "2x", "+2", "02", "4294967297", "18446744073709551617"]))] * (R.random() < .95) + [B(x) for x in items]]})
        ls = [B("".join(R.choice("abc ") for _ in range(R.randint(0, 3)))) for _ in range(R.choice([0, 1, 2, 3, 6, 30]))]
        t = sum([l + [10] for l in ls], [])
        t = t[:-1] if t and R.random() < .3 else t
        out.append({"o": "shuffle", "i": [R.choice([0, 1]), t, R.randint(0, 2**31 - 1)]})
        out.append({"o": "pick", "i": [t, R.randint(0, 2**31 - 1)]})
        for _ in range(4):
            out.append({"o": "addr", "i": [B(".".join(R.choice([str(R.randint(0, 255)), str(R.randint(0, 999)), "255", "256", "0", "01", "007", R.choice(["1x", "x", "+1", "-1", " 1", "1000", "65536", "99999999"])] if R.random() < .5 else [str(R.randint(0, 255))]) for _ in range(R.choice([4, 4, 4, 4, 3, 2]))))]})
            us = [R.choice([("D", "D", "d", "D "), ]), ("H", "h", "Hr", "HR:", "hrs "), ("M", "m", "Min", "min:"), ("S", "s", "Sec", "sec", "S  ")]
            R.shuffle(us)
            if R.random() < .1:
                us[0] = us[1]
            s = ""
            for u in us:
                c = R.choice(u)
                v = R.randint(0, 9) if c[0] in "Dd" else R.randint(0, 99)
                s += ("-" if R.random() < (.3 if c[0] in "Dd" else .03) else "") + R.choice(["", "", "0"]) + str(v) + R.choice(["", "", ".%d" % R.randint(0, 9), ".%03d" % R.randint(0, 999), "."]) + ("x" if R.random() < .02 else "") + c
            out.append({"o": "period", "i": [B(s)]})
    out.append({"o": "stats", "i": [1, []]})
    for n, c in ((2, 40), (3, 150)) if q else ((1, 3), (2, 60), (3, 300), (4, 1000)):
        out.append({"o": "shuffles", "i": [n, R.randint(0, 10**9), c]})
    for n, c in ((1, 3), (3, 300)) if q else ((1, 3), (2, 1000), (3, 1000), (5, 2000), (10, 3000)):
        out.append({"o": "picks", "i": [n, R.randint(0, 10**9), c]})
    # the listed findings
    for t in ("1.2.3.4.5", "1..2.3", "4294967297.0.0.1"):
        out.append({"o": "addr", "i": [B(t)]})
    for t in ("5S", "1D2H"):
        out.append({"o": "period", "i": [B(t)]})
    for n in [130, 300] * (1 if q else 8):
        out.append({"o": "words", "i": [R.choice([0, 1, 2]), sum([B(R.choice(["ab", "aB", "x" * 300, "q"])) + [R.choice([10, 32])] for _ in range(n)], [])]})
        out.append({"o": "stats", "i": [R.choice([0, 1, 2]), B("\n".join(",".join(str(R.randint(-9, 9)) for _ in range(R.randint(1, 3))) for _ in range(n)) + "\n")]})
        out.append({"o": "glob", "i": [[B("a*b"), B("?b*")], B("\n".join("".join(R.choice("ab") for _ in range(R.choice([2, 5, 260] if k == 0 else [2, 5]))) for k in range(n)))]})
        out.append({"o": "hex", "i": [[R.randint(0, 255) for _ in range(n * 7 + R.randint(0, 16))]]})
        out.append({"o": "shuffle", "i": [0, sum([[97 + k % 26, 97 + k // 26, 10] for k in range(n)], []), R.randint(0, 2**31 - 1)]})
        out.append({"o": "pick", "i": [sum([[97 + k % 26, 97 + k // 26, 10] for k in range(n)], []), R.randint(0, 2**31 - 1)]})
    # lines of tens of thousands of bytes
    return out + vlib.stretched(R, [r for r in out if r["o"] != "glob" or 63 not in vlib.numbers(r["i"])],
                                {"addr": [(0,)], "combos": [(0, "*")], "glob": [(0, "*"), (1,)], "pick": [(0,)], "words": [(1,)], "shuffle": [(1,)], "stats": [(1,)]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] in ("words", "hex") and len(r["r"][1]) > 40:
        r["r"][1][35] ^= 1
        return r
    if r["o"] == "combos":
        r["r"][0] = 1 - r["r"][0]
        return r
    return None


def run(ctx):
    q = ctx.quick
    ks = [("words", "97, 65, 98, 45, 10", 3), ("glob", "97, 98, 10", 4), ("hex", "0, 65, 32", 27), ("stats", "49, 50, 45, 44, 10", 3), ("combos", "0", 3), ("addr", "0", 3), ("period", "0", 4)]
    if not q:
        ks = [(k, a, n + (16 if k == "hex" else 1 if k in ("addr", "combos", "words") else 0 if k == "period" else 2)) for k, a, n in ks]
    with cf.ThreadPoolExecutor(8) as ex:
        hb = ex.submit(vlib.build, ctx, ["tools.cpp"] + ["tool_%s.cpp" % t for t in TOOLS], (), "exec", True, ["-Wl,--wrap=time"])
        fs = [ex.submit(vlib.model_check, ctx, "MCTools", CFG % k) for k in ks]
        em = [r for f in fs for r in f.result()]
        exe = hb.result()
    vlib.bind(ctx, exe, "ToolsTrace", em, gen(ctx), canary)
