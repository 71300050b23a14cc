import vlib, concurrent.futures as cf
from vlib import B
from P07 import tok, badtok, good, join

ASSUMPTIONS = ["index lists ascend strictly", "column types int, string and unsigned short in rotation (other types: P03, P04)",
               "sequences handed over are at least as long as the list, or the call must throw (column_selector)"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nMaxIdx = %d\nMaxCols = %d\nSPECIFICATION Spec\n"
       "INVARIANTS SelRight ParseRight OnlyListed\nPROPERTY Terminates\n")


def idxs(R, n, top):
    return sorted(R.sample(range(top), n))


def core(R):
    """every arity: the right row, every single bad value, a row that stops short of the last column"""
    out = []
    for n in range(1, 13):
        for idx in (list(range(n)), idxs(R, n, n + 6)):
            for bad in [0] + [k for k in range(1, n + 1) if k % 3 != 2]:
                f = [B("z%d" % c) for c in range(idx[-1] + 1 + R.randint(0, 1))]
                g = [B(str(50 + c)) for c in range(len(f))]
                for k, c in enumerate(idx):
                    f[c] = good(k + 1) if k + 1 != bad else B("x!")
                    g[c] = B(str(-900 - 3 * k)) if k + 1 != bad else B("x!")
                for d in ([44], [59, 44]):
                    out.append({"o": "pcols", "i": [join(f, 44), d, idx]})
                    out.append({"o": "cselsplit", "i": [join(f, 44), d, 0, idx]})
                    out.append({"o": "pcolseq", "i": [join(g, 44), d, idx, n]})
                    if not bad:
                        out.append({"o": "pcols", "i": [join(f[:idx[-1]], 44), d, idx]})
                        out.append({"o": "pcolseq", "i": [join(g[:idx[-1]], 44), d, idx, n]})
                out.append({"o": "csel", "i": [idx, [f, f[:idx[-1]], g]]})
                if n <= 10:
                    out.append({"o": "cselseq", "i": [idx, [g, g[:idx[-1]]], n]})
    return out


def gen(ctx):
    R = ctx.rng
    out = core(R)
    for rep in range(14 if ctx.quick else 300):
        for n in range(1, 13):
            top = n + R.choice([0, 0, 1, 3, 9, 30])
            idx = idxs(R, n, top)
            m = R.choice([idx[-1] + 1, idx[-1] + 1, idx[-1] + 2, top + 3, max(1, idx[-1]), R.randint(0, top)])
            pb = R.choice([0, 0, .03, .3])
            ty = {c: j + 1 for j, c in enumerate(idx)}
            f = [(badtok if R.random() < pb else tok)(R, ty[c] % 3) if c in ty else tok(R, R.randint(0, 2)) for c in range(m)]
            g = [(badtok if R.random() < pb else tok)(R, 1) for c in range(m)]
            dl = R.choice([[44], [44], B(",;"), [255], [0, 124]])
            d = list(dl) + ([] if R.random() < .8 else [1])

            def txt(f):
                t = []
                for k, x in enumerate(f):
                    if k:
                        t += [R.choice(dl) for _ in range(R.choice([1, 1, 1, 2, 3]))]
                    t += x
                if R.random() < .1:
                    t = [R.choice(dl)] + t
                return t + ([R.choice(dl)] if R.random() < .15 else [])
            out.append({"o": "pcols", "i": [txt(f), d, idx]})
            out.append({"o": "pcolseq", "i": [txt(g), d, idx, n + R.choice([0, 0, 1, 4])]})
            out.append({"o": "cselsplit", "i": [txt(f), d, R.choice([0, 1, 0, 1, 2, 3, 4, 5, 6, 7]), idx]})
            rows = [f] + [R.choice([f, f[::-1], f[:R.randint(0, m)], [tok(R, R.randint(0, 2)) for _ in range(R.randint(0, top + 2))], [[]] * m]) for _ in range(R.randint(0, 3))]
            out.append({"o": "csel", "i": [idx, rows]})
            if n <= 10:
                out.append({"o": "cselseq", "i": [idx, [g, g[1:] + [[]], g[:R.randint(0, m)]][:R.randint(1, 3)], R.choice([n, n, n + 1, n + 5, n - 1, 0])]})
    # columns far to the right
    for n in [1, 2, 3, 6, 10, 12] * (1 if ctx.quick else 6):
        top = R.choice([40, 260, 300])
        idx = sorted(R.sample(range(top - n - 4, top), n)) if R.random() < .5 else idxs(R, n, top)
        ty = {c: j + 1 for j, c in enumerate(idx)}
        m = idx[-1] + R.choice([0, 1, 1, 2, 9])
        f = [tok(R, ty[c] % 3) if c in ty else B("z") for c in range(m)]
        g = [tok(R, 1) for c in range(m)]
        txt = lambda f: [x for k, q in enumerate(f) for x in [44] * (k > 0) + q]
        out.append({"o": "pcols", "i": [txt(f), [44], idx]})
        out.append({"o": "pcolseq", "i": [txt(g), [44], idx, n]})
        out.append({"o": "cselsplit", "i": [txt(f), [44], R.choice([0, 1]), idx]})
        out.append({"o": "csel", "i": [idx, [f, f[:-1]]]})
        if n <= 10:
            out.append({"o": "cselseq", "i": [idx, [g, g[1:]], n]})
    # columns of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"csel": [(1, "*", "*")], "cselseq": [(1, "*", "*")], "cselsplit": [(0,)], "pcols": [(0,)], "pcolseq": [(0,)]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "pcols":
        r["r"][0][0] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["columns.cpp"])
        em = vlib.model_check(ctx, "MCColumns", CFG % ((",".join(map(str, B("1x,"))), 5, 2, 2) if q else (",".join(map(str, B("15x,"))), 6, 3, 3)))
        exe = hb.result()
    vlib.bind(ctx, exe, "ColumnsTrace", em, gen(ctx), canary)
