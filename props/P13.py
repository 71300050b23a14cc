import vlib, concurrent.futures as cf
from vlib import B
from P12 import cfg

ASSUMPTIONS = ["the text of a containment condition is not empty", "letter case is that of ASCII (C locale)"]


def gen(ctx):
    R = ctx.rng
    out = []
    for c in range(256):
        out.append({"o": "imatch", "i": [[c], [c]]})
        out.append({"o": "imatch", "i": [[c], [c ^ 32]]})
        out.append({"o": "find", "i": [[c], [c ^ 32, c, c ^ 32]]})
        out.append({"o": "match", "i": [[c], [c ^ 32]]})
        out.append({"o": "match", "i": [[42, c], [1, c, c]]})
    for _ in range(500 if ctx.quick else 9000):
        al = R.choice([B("ab"), B("abAB"), B("a*?"), list(range(256))])
        s = [R.choice(al) for _ in range(R.choice([0, 1, 2, 3, 5, 8, 13, 30]))]
        p = []
        for ch in s:
            x = R.random()
            if x < .55: p.append(ch)
            elif x < .7: p.append(63)
            elif x < .8: p.append(42)
            elif x < .9: p += [42, ch]
            elif x < .93: p += [63, 42]
            elif x < .95: p.append(R.choice(al))
        if R.random() < .3:
            p += R.choice([[42], [63], [42, 63], [63, 63], [42, 42]])
        if R.random() < .3:
            p = R.choice([[42], [63], [63, 42]]) + p
        out.append({"o": "match", "i": [p, s]})
        st, qm = R.choice([(1, 2), (42, 43), (7, 7), (300, 301)])
        out.append({"o": "match_w", "i": [[st if v == 42 else qm if v == 63 else v for v in p], s, st, qm]})
        al = R.choice([B("aB"), B("aAbB"), B("a"), list(range(256))])
        p = [R.choice(al) for _ in range(R.choice([0, 1, 1, 2, 3, 4]))]
        s = []
        for _ in range(R.choice([0, 1, 2, 4, 9])):
            s += R.choice([p, [v ^ 32 if chr(v).isalpha() and v < 128 else v for v in p], p[:-1], [R.choice(al)]])
        out.append({"o": "find", "i": [p, s]})
        out.append({"o": "imatch", "i": [s, [v ^ 32 if (65 <= v <= 90 or 97 <= v <= 122) and R.random() < .5 else v for v in s]]})
        out.append({"o": "imatch", "i": [s, p]})
        c = [[R.choice(al) for _ in range(R.randint(0, 2))] for _ in range(R.randint(0, 5))]
        out.append({"o": "imatch_in", "i": [[R.choice(al) for _ in range(R.randint(0, 2))], c]})
        out.append({"o": "sort", "i": [s]})
        p = R.choice([s[:R.randint(1, 3)], s[-R.randint(1, 3):], s[1:3], [R.choice(al)], s, [42] + s[2:], s[:2] + [63, 42], p]) or [R.choice(al)]
        out.append({"o": "condition", "i": [p, s]})
    for n in [130, 260, 300, 530] * (1 if ctx.quick else 5):
        s = [R.choice(B("aAbB")) for _ in range(n)]
        t = [v ^ 32 if R.random() < .5 else v for v in s]
        out.append({"o": "imatch", "i": [s, t]})
        t[R.randrange(n)] ^= 1
        out.append({"o": "imatch", "i": [s, t]})
        out.append({"o": "match", "i": [s[:n // 2] + [42] + s[n // 2 + 3:-1] + [63], s]})
        out.append({"o": "match", "i": [[42] + s[n - 20:] + [42, 120], s]})
        out.append({"o": "find", "i": [s[:2], s]})
        out.append({"o": "find", "i": [s[5:-5], s]})
        out.append({"o": "condition", "i": [s[-270:], s]})
        out.append({"o": "condition", "i": [s[:270], s]})
        out.append({"o": "sort", "i": [s]})
        out.append({"o": "imatch_in", "i": [B("zz"), [[R.choice(B("aAbB")) for _ in range(2)] for _ in range(300)] + [B("ZZ")] * R.randint(0, 1)]})
    for n in [2, 3, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        p = [R.choice(B("abAB")) for _ in range(R.randint(1, 3))]
        u, t = [R.choice(B("aAbB") + p) for _ in range(R.randint(0, 6))] + B("x"), R.choice([p, [R.choice(B("aAbB")) for _ in range(R.randint(0, 6))]])
        for q, w in ((p, u), (p, B("xy")), (u[-1:] + t + B("q"), B("y"))):
            if q[0] != 120:
                out.append({"o": "find_bulk", "i": [q, w, n, t]})
        for q in ([42] + t, [42] + u[-2:] + t, [42, 63] + t[1:] + [42], [42, 113] + t, [42] + p + [42], u + [42]):
            out.append({"o": "match_bulk", "i": [q, u, n, t + B("a")]})
    return out


def canary(r):
    if r["o"] in ("match", "imatch"):
        r["r"][0] = 1 - r["r"][0]
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["search.cpp"])
        em = vlib.model_check(ctx, "MCSearch", cfg(B("ab*?"), B("ab"), 4 if q else 5, 4 if q else 6, ["match"]))
        em += vlib.model_check(ctx, "MCSearch", cfg(B("aA"), B("aAb"), 3, 4 if q else 6, ["find"]))
        exe = hb.result()
    em = [r for r in em if r["o"] in ("match", "find", "imatch", "condition")]
    vlib.bind(ctx, exe, "SearchTrace", em, gen(ctx), canary)
