import vlib, concurrent.futures as cf
from vlib import B
from P07 import cfg, tok, badtok

ASSUMPTIONS = ["element types int and string (other types: P03, P04)", "the returned count of an unlimited parse is the number of fields"]


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(150 if ctx.quick else 3000):
        dl = R.choice([[44], B(",;"), [32], [255, 0]])
        t = []
        for k in range(R.choice([0, 1, 2, 3, 5, 9])):
            if k or R.random() < .1:
                t += [R.choice(dl) for _ in range(R.choice([1, 1, 2]))]
            t += R.choice([B("5"), B("05"), tok(R, 1), tok(R, 1), badtok(R, 1), B("1")])
        if R.random() < .2:
            t += [R.choice(dl)]
        d = list(dl) + ([1] if R.random() < .2 else [])
        opt = R.choice([0, 1, 1, 1, 2, 3, 4, 5, 6, 7])
        n = R.choice([-1, -1, 0, 1, 2, 3, 50])
        out.append({"o": "cont", "i": [t, d, opt, n, "i"]})
        out.append({"o": "cont", "i": [t, d, opt, n, "s"]})
        u = [c for c in t if c != 10]
        out.append({"o": "cont_lines", "i": [R.choice([u, u + [10] + B("7,8"), [10] + u]), R.choice([d, d, d, d, []]), opt, n]})
        al = R.choice([B("aA"), B("abAB*"), list(range(256))])
        f = [[R.choice(al) for _ in range(R.randint(0, 3))] for _ in range(R.randint(0, 6))]
        p = [R.choice(f) if f and R.random() < .5 else [R.choice(al) for _ in range(R.randint(0, 4))] for _ in range(R.randint(0, 3))]
        p = [[c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and R.random() < .3 else c for c in q] for q in p]
        out.append({"o": "filter", "i": [f, p, R.randint(0, 1), R.randint(0, 1)]})
        out.append({"o": "wfilter", "i": [f, [R.choice(al + B("*?")) for _ in range(R.randint(0, 3))], R.randint(0, 1)]})
        out.append({"o": "nonempty", "i": [t, d]})
    for n in range(0, 9):
        out.append({"o": "sizes", "i": [B("x" * n)]})
    for n in [70, 257, 300, 1030] * (1 if ctx.quick else 6):
        dl = R.choice([[44], B(",;")])
        t = []
        for k in range(n):
            t += [R.choice(dl)] * (k > 0) + (badtok(R, 1) if R.random() < .03 else [] if R.random() < .03 else tok(R, 1))
        opt, lim = R.choice([0, 1, 2, 5]), R.choice([-1, 64, 255, 256, 257, 5000])
        out.append({"o": "cont", "i": [t, dl, opt, lim, "i"]})
        out.append({"o": "cont", "i": [t, dl, opt, lim, "s"]})
        u = [c for c in t if c != 10]
        out.append({"o": "cont_lines", "i": [u + [10] + u[:99], dl, opt, lim]})
        out.append({"o": "nonempty", "i": [t, dl]})
        out.append({"o": "filter", "i": [[[97, k % 256, k // 256] for k in range(n)], [[97, 3, 0], [97, 4, 0], [98]], R.randint(0, 1), R.randint(0, 1)]})
    for n in [3, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        for ty in ("i", "s"):
            fs = [R.choice([B("5"), B("5"), tok(R, 1), B("-3"), B("x"), tok(R, 0)]) for _ in range(R.randint(1, 2 if n > 9 else 4))]
            if ty == "i" and R.random() < .5:
                fs[0] = B("5")
            fs = [[c for c in f if c not in (44, 10)] or B("1") for f in fs]
            u = sum((f + [44] for f in fs), [])
            k = n // len(fs) + 1
            for lim in (-1, k * len(fs)):
                out.append({"o": "cont_bulk", "i": [u, [44], R.choice([0, 1]), lim, k, ty, R.choice([B("7"), B("q7")]), R.choice([0, 1]) if ty == "i" else 0]})
    # tokens of tens of thousands of bytes
    out += vlib.stretched(R, [r for r in out if r["o"] != "wfilter" or 63 not in r["i"][1]],
                          {"cont": [(0,)], "cont_lines": [(0,)], "filter": [(0, "*"), (1, "*")], "nonempty": [(0,)], "wfilter": [(0, "*")]}, 60 if ctx.quick else 900)
    return out


def canary(r):
    if r["o"] == "cont":
        r["r"][0][2] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["contparse.cpp"])
        em = vlib.model_check(ctx, "MCParse", cfg(B("15x,") if q else B("15x,-"), 5 if q else 6, 3, ["cont"]))
        exe = hb.result()
    vlib.bind(ctx, exe, "ParseTrace", em, gen(ctx), canary)
