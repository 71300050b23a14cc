import vlib, concurrent.futures as cf

ASSUMPTIONS = ["the machine stores numbers lowest byte first", "elements hashed are bytes, 32 bit integers, 64 bit unsigned integers and doubles", "raw outputs do not overlap the interleaved inputs"]
CFG = 'CONSTANTS Codes = {%s}\nMaxLen = %d\nSPECIFICATION Spec\nINVARIANTS Rows XorUndoes Inclusion Recover Distances Folded SetRead SpreadIsWeave Out OutDigest\n'


def gen(ctx):
    R = ctx.rng
    out = []

    def row(n):
        return [R.choice([0, 255, 128, 127, 1, R.randint(0, 255)]) for _ in range(n)]
    for _ in range(1200 if ctx.quick else 15000):
        n = R.choice([0, 1, 2, 3, 4, 7, 8, 9, 16, 33, R.randint(0, 70)])
        a = row(n)
        b = row(n) if R.random() < .8 else row(max(0, n + R.choice([-1, 1, 3])))
        if R.random() < .2:
            b = list(a)
            if b:
                b[R.randrange(len(b))] ^= 1 << R.randint(0, 7)
        out.append({"o": "combine", "i": [a, b, row(2)]})
        out.append({"o": "interleave", "i": [a, b, row(2)]})
        out.append({"o": "distance", "i": [a, b]})
        out.append({"o": "ones", "i": [row(R.choice([1, 2, 4, 8, 8, n]))]})
        m = R.randint(1, 9)
        out.append({"o": "setbits", "i": [row(m), [[R.randrange(8 * m), R.randint(0, 1)] for _ in range(R.randint(0, 10))]]})
        w = R.choice([1, 1, 4, 8])
        k = R.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 66, 70, 127, 130])
        out.append({"o": "digest", "i": [[R.randint(0, 65535), R.randint(0, 65535)], [row(w) for _ in range(k)]]})
    for k in range(0, 140):
        out.append({"o": "digest", "i": [[0, 7], [[(37 * j + k) % 256] for j in range(k)]]})
    every = list(range(256))
    out.append({"o": "interleave", "i": [every, every[::-1], []]})
    out.append({"o": "interleave", "i": [[0] * 256, every, []]})
    out.append({"o": "interleave", "i": [every, [0] * 256, []]})
    out += [{"o": "ones", "i": [[c]]} for c in every]
    out += [{"o": "spread", "i": [n]} for n in (2, 4, 8)]
    for n in [257, 260, 300, 1027] * (1 if ctx.quick else 8):
        a = [R.randint(0, 255) for _ in range(n)]
        b = [R.randint(0, 255) for _ in range(n)]
        out.append({"o": "combine", "i": [a, b, []]})
        out.append({"o": "interleave", "i": [a, b, []]})
        out.append({"o": "distance", "i": [a, b]})
        out.append({"o": "distance", "i": [a, [x ^ 255 for x in a]]})
        out.append({"o": "ones", "i": [[255] * n]})
        out.append({"o": "digest", "i": [[1, 2], [[x] for x in a]]})
        out.append({"o": "setbits", "i": [a[:40], [[R.randrange(300, 320), R.randint(0, 1)] for _ in range(9)]]})
    for n in [65537] + ([] if ctx.quick else [70001, 200003]):
        for k in [1, 3, 8]:
            out.append({"o": "bits_bulk", "i": [row(k), row(k), n]})
        out.append({"o": "bits_bulk", "i": [[255], [0], n]})
        out.append({"o": "bits_bulk", "i": [[R.randint(0, 255) for _ in range(9)], [R.randint(0, 255) for _ in range(9)], n]})
        out.append({"o": "setbits_bulk", "i": [2 * n, sorted(R.sample(range(16 * n), 20) + [65535, 65536, 8 * 65536, 16 * n - 1])]})
        out.append({"o": "digest_bulk", "i": [[R.randint(0, 65535), 3], [[R.randint(0, 255)]], n]})
        out.append({"o": "digest_bulk", "i": [[R.randint(0, 65535), 3], [row(4), row(4)], 20000]})
    return out


def canary(r):
    if r["o"] == "digest":
        r["r"][0][1] ^= 1
        return r
    if r["o"] == "setbits":
        r["r"][1][0] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["bits.cpp"])
        em = vlib.model_check(ctx, "MCBits", CFG % (("0, 1, 254, 170, 128", 2) if q else ("0, 1, 128, 170, 201, 254, 255", 3)))
        exe = hb.result()
    vlib.bind(ctx, exe, "BitsTrace", em, gen(ctx), canary)
