import vlib, concurrent.futures as cf
from vlib import B
from P03 import cfg, intnum
from P04 import rnd

ASSUMPTIONS = ["the C library's strtod/printf are trusted to produce and describe the original real value"]


def gen(ctx):
    R = ctx.rng
    out = []
    for c in range(256):
        out.append({"o": "small_print", "i": [[c]]})
        out.append({"o": "small_print", "i": [[c] + [R.randrange(256) for _ in range(R.randint(0, 9))]]})
    for v in list(range(0, 1101)) + [10 ** k + d for k in range(0, 20) for d in (-1, 0, 1)] + [l + d for l in (2**15, 2**16, 2**31, 2**32, 2**63, 2**64) for d in (-2, -1, 0, 1)]:
        if v < 0 or v >= 2**64:
            continue
        out.append({"o": "int_print", "i": [B(str(v))]})
        if v and v <= 2**63 and (v > 1000 or v % 3 == 0):
            out.append({"o": "int_print", "i": [B("-" + str(v))]})
    for _ in range(500 if ctx.quick else 20000):
        v = intnum(R)
        if v < 2**64:
            out.append({"o": "int_print", "i": [B(str(v))]})
        if 0 < v <= 2**63:
            out.append({"o": "int_print", "i": [B("-" + str(v))]})
        s = rnd(R) if R.random() < .7 else R.choice(["0", "-0.0", "inf", "-inf", "nan", "1", "-1", "0.1", "1e300", "1e-300", "123456789012345678", "3.4e38", "1e-37"])
        f = R.randrange(3)
        if not s:
            continue
        try:
            x = abs(float(s.rstrip("fFlL") if s[-1] in "FlLf" and s[-3:] != "inf" else s))
        except ValueError:
            continue
        if f == 0 and x == x and x not in (0.0, float("inf")) and not (1e-35 < x < 1e37):
            f = 1
        if f >= 1 and x == x and x not in (0.0, float("inf")) and not (1e-290 < x < 1e290):
            continue
        out.append({"o": "real_print", "i": [B(s), f]})
    return out


def canary(r):
    if r["o"] == "int_print":
        for t in r["r"]:
            if t:
                t[0][0] = [48] + t[0][0]
                return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["num.cpp", "real.cpp"])
        em = vlib.model_check(ctx, "MCNum", cfg(B("-0129"), 4 if q else 6, True, True, False))
        exe = hb.result()
    em = [r for r in em if r["o"] == "int_print" or (r["o"] == "int_parse" and not q)]
    vlib.bind(ctx, exe, "NumTrace", em, gen(ctx), canary)
