import vlib, concurrent.futures as cf

ASSUMPTIONS = ["smallest and largest are asked of sequences that are not empty", "a count to copy does not exceed what is there", "bytes are ordered by their unsigned value; plain characters above 127 are not ordered"]
CFG = 'CONSTANTS Elems = {%s}\nMaxLen = %d\nSPECIFICATION Spec\nINVARIANTS Dups Ends Uniq OnceRight Leading CanonRight Out\n'


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(1200 if ctx.quick else 15000):
        al = R.choice([[1, 2], [0, 255], [97, 98, 99], list(range(256)), [-5, 0, 7], [127, 128, 129]])
        n = R.choice([0, 1, 2, 3, 5, 9, 20, 40])
        s = [R.choice(al) for _ in range(n)]
        if R.random() < .35 and s:
            k = R.randint(1, min(6, n))
            s = (s[:k] * 6)[:R.choice([k, 2 * k, 3 * k, 2 * k + 1])]
        if R.random() < .2:
            s = sorted(s)
        out.append({"o": "figures", "i": [s]})
        b = [x % 256 for x in s]
        out.append({"o": "copies", "i": [b, [R.choice(b or [1]) for _ in range(R.randint(0, 4))] + [3], R.randint(0, len(b))]})
        if R.random() < .4 and b:
            b = b + b[:R.randint(0, len(b))]
        out.append({"o": "once", "i": [b]})
        d = [R.choice(al + [R.randint(0, 255)]) for _ in range(R.choice([0, 1, 2, 31, 32, 33, 60]))]
        out.append({"o": "members", "i": [s + d[-2:], d]})
        if R.random() < .3:
            out.append({"o": "iota", "i": [R.choice([0, -3, 2**31 - 100, R.randint(-1000, 1000)]), R.choice([0, 1, 2, 50])]})
            out.append({"o": "view", "i": [b]})
    every = list(range(256))
    out += [{"o": "once", "i": [[c] + [x for x in every if x != c] * 2]} for c in every]
    out += [{"o": "once", "i": [every * 2]}, {"o": "members", "i": [every, every[::2]]}]
    for n in [257, 300, 530] * (1 if ctx.quick else 8):
        s = [R.randint(0, 3) for _ in range(n)] if R.random() < .5 else [R.randint(0, 70000) for _ in range(n)]
        out.append({"o": "figures", "i": [s]})
        out.append({"o": "figures", "i": [[2] * n + [1] + [2] * n]})
        b = [x % 256 for x in s]
        out.append({"o": "copies", "i": [b, [1, 2], n // 2]})
        out.append({"o": "once", "i": [[1, 2] * n + [3] + [4] * 256 + [5] * 257]})
        out.append({"o": "iota", "i": [R.randint(-5, 5), n]})
        out.append({"o": "view", "i": [b]})
    for n in [65537] if ctx.quick else [65536, 65537, 100003]:
        u = [R.choice([1, 2, 2, 200]) for _ in range(5)]
        t = [R.randint(0, 255) for _ in range(6)]
        out.append({"o": "figures_bulk", "i": [u, n]})
        out.append({"o": "figures_bulk", "i": [[7], n]})
        for d in ([1, 2, 200], [1, 200, t[0]], [77, t[2]]):
            out.append({"o": "copies_bulk", "i": [u, n, t, d]})
        out.append({"o": "once_bulk", "i": [[1, 2], n, [2, 3, 4, 3]]})
        out.append({"o": "once_bulk", "i": [[9, 200, 201], n, [9, 255, 255, 254]]})
        out.append({"o": "iota", "i": [-3, n]})
        out.append({"o": "view", "i": [[(k * k) % 251 for k in range(n)]]})
        d = [300 + k for k in range(n)]
        out.append({"o": "members", "i": [[300, 299, 299 + n, 300 + n, 301], d]})
    return out


def canary(r):
    if r["o"] == "once":
        r["r"][0] += 1
        return r
    if r["o"] == "figures":
        r["r"][1] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["seqs.cpp"])
        em = vlib.model_check(ctx, "MCSeqs", CFG % (("0, 97, 200", 5) if q else ("0, 97, 127, 200", 7)))
        exe = hb.result()
    vlib.bind(ctx, exe, "SeqsTrace", em, gen(ctx), canary)
