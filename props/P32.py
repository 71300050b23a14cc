import vlib, concurrent.futures as cf

ASSUMPTIONS = ["array sizes 1 to 12 (comparison 1 to 24, 31 and 47); sizes are compile time constants"]
CFG = 'CONSTANTS MaxN = %d\nMaxCells = %d\nMaxText = %d\nSPECIFICATION Spec\nINVARIANTS CmpRight NoOverrun SetRight TurnRight TwiceSame Outside\nPROPERTY Ends\n'


def gen(ctx):
    R = ctx.rng
    out = []
    for n in list(range(1, 25)) + [31, 47]:
        # one differing byte at every place, differing in one bit or all
        for _ in range(1 if ctx.quick else 8):
            a = [R.randrange(256) for _ in range(n)]
            out.append({"o": "same", "i": [a, list(a)]})
            for k in range(n):
                b = list(a)
                b[k] ^= R.choice([1, 128, 255, 1 << R.randrange(8)])
                out.append({"o": "same", "i": [a, b]})
            b = [x ^ 255 for x in a]
            out.append({"o": "same", "i": [a, b]})
            # differences that cancel in a sum or an exclusive or
            if n > 1:
                b = list(a)
                i, j = R.sample(range(n), 2)
                b[i] ^= 5
                b[j] ^= 5
                out.append({"o": "same", "i": [a, b]})
                b = list(a)
                b[i], b[j] = b[j], b[i]
                out.append({"o": "same", "i": [a, b]})
    for n in range(1, 13):
        for m in range(0, 14):
            s = [R.randrange(256) for _ in range(m)]
            for pad in (0, 1):
                out.append({"o": "setarray", "i": [n, s, pad, R.choice([48, 0, 255])]})
            out.append({"o": "cleararray", "i": [n, m, R.randrange(128)]})
            out.append({"o": "makestring", "i": [[R.choice([0, 255, 97]) for _ in range(n)], m]})
    for _ in range(200 if ctx.quick else 4000):
        s = [R.choice([0, 255, 128] + list(range(97, 105))) for _ in range(R.choice([0, 1, 2, 3, 8, 20, 50]))]
        f = R.choice([0, 0, R.randint(0, len(s))])
        t = R.choice([len(s), R.randint(f, len(s))])
        out.append({"o": "inplace", "i": [s, f, t, R.choice([0, 42, 127])]})
        out.append({"o": "ends", "i": [s]})
    for n in [255, 256, 257, 300, 1030]:
        s = [R.randrange(256) for _ in range(n)]
        out.append({"o": "ends", "i": [s]})
        out.append({"o": "inplace", "i": [s, R.randint(0, 3), n - R.randint(0, 3), 42]})
    return out


def canary(r):
    if r["o"] == "same":
        r["r"][0] = 1 - r["r"][0]
        return r
    if r["o"] == "inplace" and r["r"][0]:
        r["r"][0][0] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["arrays.cpp"])
        em = vlib.model_check(ctx, "MCArrays", CFG % ((17, 5, 6) if q else (24, 10, 12)))
        exe = hb.result()
    vlib.bind(ctx, exe, "ArraysTrace", em, gen(ctx), canary)
