import vlib, struct, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["the bits an element occupies are read from a filter holding only that element; elements are strings, byte ranges and padding-free values",
               "a filter that was never configured (operator! is true) is only copied, assigned, compared, cleared and loaded"]
CFG = "CONSTANTS Size = %d\nSpots = {%s}\nItems = %d\nDepth = %d\nPcts = {%s}\nSPECIFICATION Spec\nINVARIANTS Remembers EmptyHasNothing InTable SizesShrink\n"


def items(R):
    n = R.randint(2, 7)
    if R.random() < .5:
        al = R.choice([list(range(256)), B("ab"), [0, 255]])
        return [["str", [R.choice(al) for _ in range(R.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31]))]] for _ in range(n)]
    out = []
    for _ in range(n):
        t = R.choice(["str", "i4", "i8", "d8", "pod", "c1"])
        k = {"i4": 4, "i8": 8, "d8": 8, "pod": 8, "c1": 1}.get(t) or R.randint(0, 20)
        if t == "d8":
            out.append([t, list(struct.pack("<d", R.choice([0.0, 1.5, -2.25, 1e300, R.random()])))])
        else:
            out.append([t, [R.randint(0, 255) for _ in range(k)]])
    return out


def config(R, seeds):
    if R.random() < .06:
        return R.choice([[9, 8, 1, 9, 5, 100, 3], [1, 0, 3, 2, 5, 100, 3], [1, 0, 0, 2, 5, 100, 3], [1, 0, 1, 9, 0, 100, 3], [1, 0, 1, 9, 5, -1, 3],
                         [1, 0, 1, 9, 5, 0, 3], [1, 0, 1, 9, 5, 2000000, 3], [1, 0, 1, 9, 5, 100, 0]])
    lo = R.choice([1, 1, 1, 8, 13, 40, 100, 127, R.choice([100, 1000, 5000, 70000])])
    hi = R.choice([0, 0, 0, lo, lo + 3, 64, 200])
    if hi and hi < lo:
        hi = lo
    a = R.choice([1, 1, 1, 2, 5, 140])
    b = R.choice([a, a + 3, 4000000])
    return [lo, hi, a, b, R.choice([1, 2, 5, 10, 20]), R.choice([1, 100, 10000, 50000, 200000, 500000, 1000000]), R.choice(seeds)]


def valid(c):
    return (c[1] == 0 or c[0] <= c[1]) and 1 <= c[2] <= c[3] and c[4] > 0 and 0 < c[5] <= 1000000 and c[6] != 0


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(400 if ctx.quick else 8000):
        it = items(R)
        seeds = [R.randint(1, 10**6)] if R.random() < .6 else [R.randint(1, 10**6) for _ in range(2)]
        cs = [config(R, seeds) for _ in range(R.randint(1, 3))]
        ok = [k + 1 for k, c in enumerate(cs) if valid(c)]
        allstr = all(x[0] == "str" for x in it)
        live = [False] * 4
        es = []
        for n in range(R.randint(3, 16)):
            w = R.choice(["ins"] * 6 + ["rng", "cpy", "asg", "and", "or", "or", "xor", "bin", "clr", "zip", "zip", "sav", "sav", "cut", "mis", "def", "new"])
            a, b, d = R.randint(1, 3), R.randint(1, 3), R.randint(1, 3)
            L = [k for k in (1, 2, 3) if live[k]]
            if (not L or n < 2 or w == "new") and ok:
                k = R.random() < .5
                es.append(["new", a, R.choice(ok), int(k)])
                live[a] = True
                continue
            if w == "def":
                es.append(["def", a])
                live[a] = False
            elif w == "mis":
                es.append(["mis", a])
            elif w in ("cpy", "asg"):
                if a == b:
                    continue
                es.append([w, a, b])
                live[b] = live[a]
            elif w == "clr":
                es.append(["clr", a])
            elif w in ("and", "or", "xor"):
                es.append([w, a, b])
            elif L:
                a = R.choice(L)
                if w == "ins":
                    es.append(["ins", a, R.randint(1, len(it)), R.randint(0, 2)])
                elif w == "rng" and allstr:
                    es.append(["rng", a, [R.randint(1, len(it)) for _ in range(R.randint(0, 4))]])
                elif w == "bin":
                    b = R.choice(L)
                    es.append(["bin", R.choice(["and", "or", "xor"]), a, b, d])
                    live[d] = True
                elif w == "zip":
                    es.append(["zip", a, R.choice([1, 50, 100, 125, 250, 333, 500, 600, 750, 900, 990, 0, 1000, -10, 1200])])
                elif w == "sav":
                    es.append(["sav", a, b])
                    live[b] = True
                elif w == "cut":
                    es.append(["cut", a, b, R.randint(0, 99)])
                    live[b] = False
        out.append({"o": "bloom", "i": [cs, it, es]})
    for _ in range(12 if ctx.quick else 120):
        out.append({"o": "many", "i": [[1, 0, 1, 4000000, R.choice([100, 500, 1000, 2000]), R.choice([1000, 10000, 50000, 200000]), R.randint(1, 10**6)], R.randint(1, 10**6)]})
    out.append({"o": "many", "i": [[1, 0, 1, 4000000, 10000, 100, 77], 5]})
    return out


def canary(r):
    if r["o"] == "many":
        r["r"][4] = 1
        return r
    if not r["r"][1]:
        return None
    r["r"][1][-1][1][0][2] += 1
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["bloom.cpp"])
        em = vlib.model_check(ctx, "MCBloom", CFG % ((24, "0, 9, 17", 2, 4, "250, 500") if q else (24, "0, 7, 9, 17", 2, 4, "250, 500, 700")))
        if not q:
            em += vlib.model_check(ctx, "MCBloom", CFG % (40, "3, 17, 38", 2, 5, "250, 700"))
        exe = hb.result()
    if len(em) > (2500 if q else 20000):
        em = ctx.rng.sample(em, 2500 if q else 20000)
    for r in em:
        r.pop("exp")
        r["m"] = 1
    vlib.bind(ctx, exe, "BloomTrace", [], gen(ctx) + em, canary)
