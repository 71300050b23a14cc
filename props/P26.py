import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["values appended are strings, characters and integers (how others are written: P05)", "an empty set of characters to remove names no character", "adding two extended strings is not offered by the class"]
CFG = 'CONSTANTS TextBytes = {%s}\nMaxStart = %d\nMaxSteps = %d\nSPECIFICATION Spec\nINVARIANTS Trims Cases Times Minus1 SameIsSame NoHit Agrees Out OutAsk\n'


def gen(ctx):
    R = ctx.rng
    out = []

    def text(n, al=B("abAB ,;12-") + [0, 255]):
        return [R.choice(al) for _ in range(R.randint(0, n))]

    def step():
        w = R.choice(["lower", "upper", "lead", "trail", "times", "minus", "replace", "append", "number", "assign"])
        a = B(str(R.choice([0, -1, 7, R.randint(-2**31, 2**31 - 1)]))) if w == "number" else text(R.choice([1, 2, 4]))
        return [w, a, text(3), R.choice([0, 1, 2, 3])]
    for _ in range(1500 if ctx.quick else 20000):
        out.append({"o": "steps", "i": [text(R.choice([0, 1, 3, 12])), [step() for _ in range(R.choice([1, 1, 2, 4]))]]})
        nums = R.random() < .4
        s = B(R.choice([",", " ", ", "]).join(str(R.choice([0, 5, -7, 123, R.randint(-2**33, 2**33), "x", "1x"])) for _ in range(R.randint(1, 5)))) if nums else text(10)
        if R.random() < .15:
            s = B(str(R.randint(-2**32, 2**32)))
        x = R.choice([text(2), text(2), s[1:3], [c ^ 32 if 65 <= (c & 223) <= 90 else c for c in s], B("7"), B("a"), []])
        out.append({"o": "ask", "i": [s, x, R.choice([B(","), B(" ,"), B("ab"), [0], B(" ,;")]), R.choice([0, 0, 1, 2, 3, 4, 5]), R.choice([0, 1, 2, 3, 9])]})
    out.append({"o": "fixed", "i": []})
    for n in [130, 257, 300, 600] * (1 if ctx.quick else 5):
        s = text(n) + text(n) + B("ab" * 70)
        out.append({"o": "steps", "i": [s, [step() for _ in range(3)]]})
        out.append({"o": "steps", "i": [B("ab") * (n // 2), [["replace", B("ab"), R.choice([B("c"), B("xyz"), []]), 0], ["times", [], [], 3], ["minus", B("c"), [], 1]]]})
        out.append({"o": "ask", "i": [s, R.choice([s[5:300], s[-200:], s[:200]]), B(","), R.choice([0, 1, 2]), R.choice([2, 9, 300])]})
    # texts of tens of thousands of bytes
    return out + [r for r in vlib.stretched(R, out, {"ask": [(0,), (1,), (2,)], "steps": [(0,), (1, "*", "*")]}, 60 if ctx.quick else 900) if r["o"] == "steps" or len(r["i"][0]) > 1]


def canary(r):
    if r["o"] == "steps" and r["r"][0]:
        r["r"][0][0] = r["r"][0][0] + [120]
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["extstr.cpp"])
        em = vlib.model_check(ctx, "MCExtStr", CFG % (("97, 66, 32", 3, 1) if q else ("97, 66, 32", 3, 2)))
        exe = hb.result()
    vlib.bind(ctx, exe, "ExtStrTrace", em, gen(ctx), canary)
