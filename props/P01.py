import vlib
from vlib import B

ASSUMPTIONS = ["delimiter strings passed as C strings contain no NUL", "random-access iterators"]


def cfg(alpha, delims, n, opts):
    return ("CONSTANTS Alphabet = {%s}\nDelims = {%s}\nMaxLen = %d\nOpts = {%s}\nSPECIFICATION Spec\n"
            "INVARIANTS Ordered GapsAreDelims NoDelimInside Count Rejoin Lossless\nPROPERTY Terminates\n"
            % (",".join(map(str, alpha)), ",".join(map(str, delims)), n, ",".join(map(str, opts))))


def gen(ctx):
    R = ctx.rng
    recs = []
    n = 500 if ctx.quick else 6000
    for _ in range(n):
        k = R.choice([1, 1, 2, 3, 5, 40])
        pool = R.choice([list(range(256)), B("|,; \tab"), B("ab|"), [0, 255, 128, 127, 124]])
        d = [R.choice(pool) for _ in range(k)]
        alpha = pool + d * R.choice([1, 3, 40])
        s = [R.choice(alpha) for _ in range(R.choice([0, 1, 2, 5, 17, 33, 64, 65, 200]))]
        opt = R.choice([0, 0, 1, 1, 2, 3, 4, 5, 6])
        recs.append({"o": "split", "i": [s, d, opt]})
        recs.append({"o": "tokenizer", "i": [s, d, opt]})
        recs.append({"o": "split_n", "i": [s, d, opt, R.choice([0, 1, 2, 3, 7, 50, 1000])]})
    # long texts with many fields, and many delimiters
    for n in [257, 300, 520, 1025, 1100, 2050, 4100] * (1 if ctx.quick else 6):
        d = R.choice([B("|"), B(",;"), B(",; |"), [R.randrange(128, 256) for _ in range(60)], list(range(255, 0, -1))])
        s = [R.choice(B("abc") + d[:4] * R.choice([1, 1, 3])) for _ in range(n)]
        opt = R.choice([0, 0, 1, 2, 3, 4, 5, 6])
        for o in ("split", "tokenizer"):
            recs.append({"o": o, "i": [s, d, opt]})
        recs.append({"o": "split_n", "i": [s, d, opt, R.choice([100, 255, 256, 257, 600, 5000])]})
    for _ in range(250 if ctx.quick else 3000):
        d = R.sample(B("|,; "), R.choice([1, 1, 2]))
        texts = [[R.choice(d + B("ab|")) for _ in range(R.choice([0, 1, 3, 6, 12]))] for _ in range(R.randint(1, 3))]
        recs.append({"o": "tok_hist", "i": [d, [R.randrange(7), R.randrange(7)], texts, hist(R, len(texts))]})
    # tens of thousands of fields: a piece repeated
    for n in [1, 2, 3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(3 if ctx.quick else 30)]:
        d = R.choice([[44], [255], B(",;")])
        u = [R.choice(B("ab") + d * 2) for _ in range(R.randint(0, 6))]
        recs.append({"o": "bulk", "i": [B("x") + u + [d[0]], n, d, R.randrange(7)]})
    for k in [1, 1, 2, 3, 31, 32, 33, 64, 200, 256] * (2 if ctx.quick else 10):
        recs.append({"o": "predicate", "i": [[R.randrange(256) for _ in range(k)]]})
    return recs


def hist(R, nx):
    es = []
    for _ in range(R.randint(3, 14)):
        k = R.choice([1, 1, 2, 3, 4, 4, 5, 6, 7, 7])
        w = R.choice([1, 2])
        es.append([k, w, {1: R.randint(1, nx), 3: R.choice([1, 2]), 4: R.randint(0, 3)}.get(k, 0)])
    return es + [[6, 1, 0], [6, 2, 0], [7, 1, 0], [7, 2, 0]]


def canary(r):
    if r["o"] == "predicate":
        r["r"][0][R0] ^= 1
        return r
    if r["o"] in ("split", "tokenizer", "split_n"):
        r["r"][2][0] += 1
        return r
    return None


R0 = 17


def run(ctx):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["split.cpp"], [])
        q = ctx.quick
        em = vlib.model_check(ctx, "MCSplit", cfg([97, 200, 44, 124], [44, 124], 4 if q else 6, [0, 1, 2, 3, 4, 5, 6]))
        em += vlib.model_check(ctx, "MCSplit", cfg([0, 124], [124], 6 if q else 10, [0, 1, 2, 3, 4, 5, 6]))
        exe = hb.result()
    em += vlib.model_check(ctx, "MCTokens", "CONSTANTS MaxSteps = %d\nSPECIFICATION Spec\nINVARIANTS Whole Forward\n" % (3 if q else 4))
    vlib.bind(ctx, exe, "SplitTrace", em, gen(ctx), canary)
