import vlib, concurrent.futures as cf
from vlib import B
from P14 import text
from P07 import tok

ASSUMPTIONS = ["the lower column limit of a grid without rows is left open", "a history runs in one thread"]
CFG = "CONSTANTS Depth = %d\nRng = %d\nEmitAll = %s\nSPECIFICATION Spec\nINVARIANTS Projection NoEmptyRow Stats\n"
BASE = [[10], [44], 0, 0, 0]


def rng(R, n):
    a = R.randint(0, n)
    b = R.randint(a, n)
    if R.random() < .05:
        b = n + 1
    if R.random() < .03:
        a = b + 1
    return [a, b]


def edit(R, n):
    k = R.random()
    if k < .15:
        return ["rmrow", R.randint(0, n)]
    if k < .35:
        return ["rmrowif"] + rng(R, n) + [R.choice([1, 2, 3, 4, 5, 5, 3])]
    if k < .4:
        return ["rmrowall", R.choice([0, 2, 3, 4])]
    if k < .65:
        return ["rmtok"] + rng(R, n) + [R.choice([2, 3, 4, 1, 0])]
    if k < .7:
        return ["rmempty"]
    if k < .78:
        return ["enforce"] + rng(R, n) + [R.randint(1, 4)]
    if k < .82:
        return ["enforceall", R.randint(1, 4)]
    if k < .9:
        return ["minmax"] + rng(R, n) + sorted([R.randint(0, 5), R.randint(1, 5)])
    if k < .93:
        return ["minmaxall"] + sorted([R.randint(0, 5), R.randint(1, 5)])
    if k < .95:
        return ["clear"]
    t = text(R, R.randint(1, 4), 2, [44], [10], [B("a"), [], B("bb"), tok(R, 1)])
    if k < .97:
        return ["reload", t] + BASE
    if k < .99:
        return ["reloadfile", t or [97]] + BASE
    return ["loadmissing"]


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(1200 if ctx.quick else 20000):
        n = R.choice([0, 1, 2, 5, 8, 20])
        t = text(R, n, R.randint(1, 5), [44], [10], [B("a"), B("a"), [], B("bb"), tok(R, 1), tok(R, 2)])
        out.append({"o": "grid", "i": [t] + BASE + [[edit(R, n) for _ in range(R.randint(1, 12))]]})
    for n in [70, 130, 300] * (1 if ctx.quick else 6):
        t = text(R, n, R.randint(1, 3), [44], [10], [B("a"), B("bb"), B("a"), tok(R, 1)])
        es = [["rmtok", R.randint(0, 9), R.randint(n // 2, n), R.choice([2, 3])], ["rmrow", n - 3], ["rmrowif", R.randint(0, 5), n - 9, R.choice([3, 4, 5])], ["enforce", 1, n // 2, 2], ["minmax", 0, n // 3, 1, 2], ["rmrow", R.randint(0, n // 4)]]
        out.append({"o": "grid", "i": [t] + BASE + [R.sample(es, 3)]})
    for n in [1, 2, 3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(2 if ctx.quick else 16)]:
        t = text(R, R.randint(1, 4), R.randint(1, 4), [44], [10], [B("a"), B("a"), [], B("bb"), B("c")]) + [10]
        t = B("h\n") + t
        m = len([x for x in bytes(t).split(b"\n") if x])
        x = R.choice([0, R.randint(0, n)])
        y = R.choice([n, R.randint(x, n)])
        for e in R.sample([["rmrowif", x * m, y * m, R.choice([1, 2, 3, 5])], ["rmtok", x * m, y * m, R.choice([1, 2, 3, 4])], ["enforce", x * m, y * m, R.randint(1, 3)], ["minmax", x * m, y * m] + sorted([R.randint(0, 3), R.randint(1, 4)])], 2):
            out.append({"o": "grid_talledit", "i": [t] + BASE + [n, m, x, y, e]})
        e = R.choice([["rmrowall", R.choice([2, 3])], ["rmempty"], ["enforceall", R.randint(1, 3)], ["minmaxall"] + sorted([R.randint(0, 3), R.randint(1, 4)])])
        out.append({"o": "grid_talledit", "i": [t] + BASE + [n, m, 0, n, e]})
    # cells of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"grid": [(0,), (6, "*", "*")]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] != "grid":
        return None
    r["r"][-1][1][1] += 1
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["gridedit.cpp"])
        em = vlib.model_check(ctx, "MCGrid", CFG % (2, 3 if q else 4, "FALSE"))
        if not q:
            em += vlib.model_check(ctx, "MCGrid", CFG % (3, 1, "FALSE"))
        exe = hb.result()
    vlib.bind(ctx, exe, "GridTrace", em, gen(ctx), canary)
