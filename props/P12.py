import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["the output object is distinct from the inputs"]
CFG = ("CONSTANTS PAlpha = {%s}\nSAlpha = {%s}\nPLen = %d\nSLen = %d\nModes = {%s}\nSPECIFICATION Spec\n"
       "INVARIANTS MatchRight FindRight OccSound SizeRight IdentityReplace\nPROPERTY Terminates\n")


def cfg(pa, sa, pn, sn, modes):
    return CFG % (",".join(map(str, pa)), ",".join(map(str, sa)), pn, sn, ",".join('"%s"' % m for m in modes))


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(700 if ctx.quick else 12000):
        al = R.choice([B("ab"), B("a"), B("abc"), list(range(256)), [0, 255]])
        p = [R.choice(al) for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]))]
        r = [R.choice(al + [120]) for _ in range(R.choice([0, 0, 1, 1, 2, 3, 4, 8, 30]))]
        if R.random() < .1:
            r = list(p)
        if R.random() < .1:
            r = p + p
        s = []
        for _ in range(R.choice([0, 1, 2, 3, 6, 12, 30])):
            s += R.choice([p, p, p[:-1], p[1:], [R.choice(al)], [R.choice(al)], r])
        out.append({"o": "replace", "i": [s, p, r]})
        out.append({"o": "replace", "i": [s, p, []]})
        a, b = R.choice(al), R.choice(al + [120])
        out.append({"o": "replace_char", "i": [s, a, b]})
    for n in ([31, 32, 33, 64, 200] if ctx.quick else [31, 32, 33, 64, 200, 1000]):
        out.append({"o": "replace", "i": [B("ab") * n, B("ab"), B("xyz")]})
        out.append({"o": "replace", "i": [B("ab") * n, B("ab"), []]})
        out.append({"o": "replace", "i": [B("a") * n, B("aa"), B("a")]})
    for n in [520, 1100] if ctx.quick else range(500, 3000, 100):
        s = [R.choice(B("aab")) for _ in range(n)]
        for p, r in ((B("ab"), B("b")), (B("aa"), B("xyz")), (B("aab"), [])):
            out.append({"o": "replace", "i": [s, p, r]})
        long = B("ab" * 150)
        out.append({"o": "replace", "i": [long[:-1] + long + B("q") + long + long[:7], long, B("c" * 310)]})
        out.append({"o": "replace_char", "i": [s, 97, 120]})
    for n in [2, 3, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        for _ in range(3):
            p = [R.choice(B("ab")) for _ in range(R.randint(1, 3))]
            u, t = [R.choice(B("ab") + p) for _ in range(R.randint(0, 6))] + B("x"), R.choice([p, [R.choice(B("ab")) for _ in range(R.randint(0, 6))]])
            out.append({"o": "replace_bulk", "i": [p, u, n, t, [R.choice(B("abq")) for _ in range(R.choice([0, 0, 1, 2, 3, 9]))]]})
    # texts, patterns and replacements with runs of tens of thousands of bytes
    return out + vlib.stretched(R, [r for r in out if r["o"] != "replace" or len(r["i"][2]) != 1], {"replace": [(0,), (1,), (2,)], "replace_char": [(0,)]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "replace":
        r["r"][0][1] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["replace.cpp"])
        em = vlib.model_check(ctx, "MCSearch", cfg(B("ab"), B("ab"), 3, 6 if q else 9, ["find"]))
        exe = hb.result()
    em = [r for r in em if r["o"] == "replace"]
    vlib.bind(ctx, exe, "SearchTrace", em, gen(ctx), canary)
