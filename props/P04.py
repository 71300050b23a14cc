import vlib, concurrent.futures as cf
from vlib import B
from P03 import cfg

ASSUMPTIONS = ["values are compared to 13 significant digits (double, long double) or 7 (float)", "exponents of more than three digits may be refused",
               "texts ending in an inf/nan word after something other than a sign (1.#INF style) may be accepted or rejected"]


def rnd(R):
    lens = [0, 1, 1, 2, 3, 5, 9, 17, 20, 40, 120, 250] + ([305, 308, 309, 310, 312, 400, 700] if R.random() < .25 else [])
    ip = "".join(R.choice("0123456789") for _ in range(R.choice(lens)))
    fp = "".join(R.choice("0123456789") for _ in range(R.choice(lens)))
    s = R.choice(["", "", "-", "+"]) + "0" * R.choice([0, 0, 0, 1, 40]) + ip
    if R.random() < .75:
        s += "." + "0" * R.choice([0, 0, 1, 3, 30] + ([300, 307, 308, 309, 400] if R.random() < .1 else [])) + fp
    if len(ip + fp) > 300 and R.random() < .4:
        # an exponent that brings the value back near one, or near the ends of the range
        s += "e" + str(R.choice([-len(ip), len(fp), 300 - len(ip), -300 - len(ip)]) + R.randint(-3, 3))
    elif R.random() < .6:
        e = R.choice([0, 1, 5, 10, 22, 23, 37, 38, 39, 100, 290, 307, 308, 309, 310, 320, 400, 617, 700, 999, 1000, 4931, 9999, 10000, R.randint(0, 330), R.randint(0, 40)])
        s += R.choice("eE") + R.choice(["", "-", "-", "+"]) + "0" * R.choice([0, 0, 0, 1, 2, 10]) + str(e)
    if R.random() < .2:
        s += R.choice("fFlL")
    return s


WORDS = ["inf", "INF", "infinity", "INFINITY", "nan", "NAN", "Inf", "Nan", "iNF", "infi", "infinit", "infinityx", "in", "na", "nanx", "i", "n", "nAN", "NaN", "InfinitY", "#inf", "1.#INF", "1.#IND", "1#", "#", "e5", "E", "1e", "1e+", "1e-", "1ef", "1e+f", ".", "+.", "-", "+", ".e1", "f", "1ff", "1fl", "1e5ff", "0x10", "1.2.3", "1e5.", "1e5e5", " 1", "1 ", "1e 5", "--1", "+-1", "1-", "1e--5", "1_0", "1,0", "0e400", "0.0e-400", "-0", "-0.0", "+0e5", "00000", "1e5x", "1e12345", "1e00000000005", "123e-2l", ".5", "5.", "-.5f", "5.e1", "1I", "1j", "1m", "1k", "1N", "1Kx", "1e5i", "1e5n", "1i", "1.n"]


def gen(ctx):
    R = ctx.rng
    out = []
    for w in WORDS:
        for p in ("", "-", "+"):
            out.append({"o": "real_parse", "i": [B(p + w)]})
    for e in list(range(-330, 331)):
        for m in ("1", "9.99", "123.456", "0.00123"):
            if ctx.quick and (e % 3 and abs(abs(e) - 308) > 4 and abs(abs(e) - 38) > 3 or m == "9.99"):
                continue
            out.append({"o": "real_parse", "i": [B("%se%d" % (m, e))]})
    for n in (307, 308, 309, 310, 320, 616, 617, 1000):
        for e in ("", "e-%d" % n, "e%d" % n, "e-%d" % (n - 300), "e-300", "e305"):
            for m in ("1" * n, "9" * n, "0." + "1" * n, "0." + "0" * (n - 1) + "1", "1." + "0" * n + "1", "1" * n + "." + "9" * n, "." + "9" * n, "0" * n + "7.5", "1" + "0" * n):
                if not ctx.quick or R.random() < .3:
                    out.append({"o": "real_parse", "i": [B(m + e)]})
    for c in range(256):
        for p, q in (("", ""), ("1", ""), ("1.", ""), ("1.5e", ""), ("1.5e1", ""), ("", "5"), ("1", "5"), ("1.", "5"), ("1e", "5"), ("1e2", "3"), ("1e+", "2")):
            out.append({"o": "real_parse", "i": [B(p) + [c] + B(q)]})
    for _ in range(600 if ctx.quick else 25000):
        s = rnd(R)
        b = B(s)
        if R.random() < .15 and b:
            b[R.randrange(len(b))] = R.choice(B("+-.eEfl0i#n /:") + [R.randrange(256)])
        if R.random() < .1:
            b.insert(R.randint(0, len(b)), R.choice(B("+-.eEfl0i#n ")))
        out.append({"o": "real_parse", "i": [b]})
    return out


def canary(r):
    x = r["r"][1][0]
    if r["o"] == "real_parse" and x[0] == 1 and x[1] == 1:
        x[3] += 3
        return r
    if r["o"] == "real_parse" and x[0] == 0 and r["i"][0] and r["i"][0][-1] in B("0123456789."):
        x[0], x[1] = 1, 0
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(3) as ex:
        hb = ex.submit(vlib.build, ctx, ["real.cpp"])
        hl = ex.submit(vlib.build, ctx, ["real.cpp"], ["-Dstrtk_use_lut", "-Dstrtk_enable_superscalar"], "lut")
        em = vlib.model_check(ctx, "MCNum", cfg(B("-05.ef:"), 5, False, False, True) if q else cfg(B("-+059.efL#"), 5, False, False, True))
        exe, lut = hb.result(), hl.result()
    g = gen(ctx)
    vlib.bind(ctx, exe, "NumTrace", em, g, canary)
    # the table driven build of the same parser
    for r in em + g:
        r.pop("r", None)
    vlib.bind(ctx, lut, "NumTrace", em if not q else em[::3], [dict(r) for r in (g if not q else g[::2])], canary)
