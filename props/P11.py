import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["index lists are strictly increasing", "stateless predicates"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nPreds = {%s}\nSPECIFICATION Spec\n"
       "INVARIANTS WriteBehindRead Right Order Idempotent\nPROPERTY Terminates\n")


def cfg(al, n, preds):
    return CFG % (",".join(map(str, al)), n, ",".join("{%s}" % ",".join(map(str, p)) for p in preds))


RULES = ["pred", "lead", "trail", "both", "consp", "conse", "dups", "index"]


def gen(ctx):
    R = ctx.rng
    out = []
    for c in range(256):
        out.append({"o": "rm", "i": ["dups", [c, (c + 1) % 256, c], [], []]})
        for r in RULES[:5]:
            out.append({"o": "rm", "i": [r, [c, c, 7, c, c], [c], []]})
    for _ in range(160 if ctx.quick else 3000):
        al = R.choice([B("ab"), B("abc "), list(range(256)), [0, 127, 128, 254, 255], B("\t ,;x")])
        n = R.choice([0, 1, 2, 3, 4, 5, 8, 17, 40, 120])
        s = [R.choice(al) for _ in range(n)]
        if R.random() < .3 and n:
            s = [R.choice(al)] * n
        d = R.sample(al, R.randint(0, min(len(al), 4)))
        if R.random() < .15:
            d = list(dict.fromkeys(s))
        d.sort()
        x = sorted(R.sample(range(0, n + 3), R.randint(0, n + 2)))
        for r in RULES:
            out.append({"o": "rm", "i": [r, s, d, x]})
        si = [R.choice([-3, 0, 5, 70000, 1]) for _ in range(n)]
        di = sorted(R.sample([-3, 0, 5, 70000, 1], R.randint(0, 3)))
        for r in ["pred", "lead", "trail", "consp", "conse", "index"]:
            out.append({"o": "rm_ints", "i": [r, si, di, x]})
        st = [[] if R.random() < .4 else [R.choice(al) for _ in range(R.randint(1, 3))] for _ in range(R.randint(0, 7))]
        out.append({"o": "rm_empty", "i": [st]})
        out.append({"o": "rm_empty_set", "i": [st]})
    for n in [257, 300, 520, 1030] * (1 if ctx.quick else 5):
        al = R.choice([B("ab"), B("abc "), list(range(256))])
        s = [R.choice(al) for _ in range(n)]
        if R.random() < .5:
            s = [al[0]] * R.choice([255, 256, 257]) + s + [al[1]] * 260
        d, x = sorted(al[:R.randint(1, 2)]), sorted(R.sample(range(n + 3), R.choice([5, n // 2, n])))
        for r in RULES:
            out.append({"o": "rm", "i": [r, s, d, x]})
    for n in [1, 2, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        al = B("ab")
        u = [120] + [R.choice(al) for _ in range(R.randint(1, 5))]
        d = sorted(R.sample(al, R.randint(1, 2)))
        for r in ("pred", "consp", "conse", "index"):
            out.append({"o": "rm_bulk", "i": [r, u, d, sorted(R.sample(range(len(u)), R.randint(1, len(u)))), n, []]})
        out.append({"o": "rm_bulk", "i": ["dups", u, d, [], n, B("zaxq")]})
        for r in ("lead", "trail", "both"):
            out.append({"o": "rm_bulk", "i": [r, [R.choice(d) for _ in range(R.randint(1, 3))], d, [], n, u + [121]]})
    # runs of tens of thousands of equal bytes: kept, or named by the predicate
    long = vlib.stretched(R, [r for r in out if r["o"] != "rm" or r["i"][0] in RULES[:5]], {"rm": [(1,)], "rm_empty": [(0, "*")], "rm_empty_set": [(0, "*")]}, 60 if ctx.quick else 900)
    for r in long:
        if r["o"] == "rm" and r["i"][0] != "consp" and R.random() < .5:
            r["i"][2] = sorted(set(r["i"][2]) | {max(r["i"][1])})
    return out + long


def canary(r):
    if r["o"] == "rm":
        r["r"][0][1] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["remove.cpp"])
        em = vlib.model_check(ctx, "MCRemove", cfg([0, 97, 255], 4 if q else 6, [[], [0], [97], [255], [0, 255], [0, 97, 255]]))
        em += vlib.model_check(ctx, "MCRemove", cfg([32, 98], 6 if q else 9, [[32], [32, 98]]))
        exe = hb.result()
    vlib.bind(ctx, exe, "RemoveTrace", em, gen(ctx), canary)
