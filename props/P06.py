import vlib, base64, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["text that is not canonical base64 has no specified decoding; only memory safety is checked for it"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nDecAlphabet = {%s}\nDecLen = %d\nSPECIFICATION Spec\n"
       "INVARIANTS HexRight B64Right HexInjective\nPROPERTY Terminates\n")


def cfg(al, n, dal, dn):
    return CFG % (",".join(map(str, al)), n, ",".join(map(str, dal)), dn)


def gen(ctx):
    R = ctx.rng
    out = []

    def enc(s):
        out.append({"o": "hex_enc", "i": [s]})
        out.append({"o": "b64_enc", "i": [s]})
        out.append({"o": "hex_dec", "i": [B(bytes(s).hex())]})
        out.append({"o": "hex_dec", "i": [B(bytes(s).hex().upper())]})
        out.append({"o": "b64_dec", "i": [list(base64.b64encode(bytes(s)))]})
    for c in range(256):
        enc([c])
        enc([c, 255 - c, c])
        for t in ([c], [48, c], [c, 70], [65, 65, 65, c], [c, 65, 65, 65], [65, 65, c, 61], [65, c, 61, 61]):
            out.append({"o": "hex_dec", "i": [t]})
            out.append({"o": "b64_dec", "i": [t]})
    for v in range(64):
        enc([v << 2, 0, 0]); enc([v >> 4, (v << 4) & 255, 0]); enc([0, v >> 2, (v << 6) & 255]); enc([0, 0, v])
    for _ in range(150 if ctx.quick else 4000):
        n = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 33, 47, 48, 49, R.randint(50, 300 if ctx.quick else 2000)])
        s = [R.choice([R.randrange(256), R.choice([0, 255, 127, 128])]) for _ in range(n)]
        enc(s)
        h = B(bytes(s).hex())
        if h:
            h[R.randrange(len(h))] = R.choice(B("gG/:@` xX") + [0, 255, R.randrange(256)])
            out.append({"o": "hex_dec", "i": [h]})
            out.append({"o": "hex_dec", "i": [h[1:]]})
        b = list(base64.b64encode(bytes(s)))
        k = R.randint(0, len(b))
        out.append({"o": "b64_dec", "i": [b[:k]]})
        out.append({"o": "b64_dec", "i": [[R.choice(b + [61, 61, 0, 255, 43, 47]) for _ in range(R.randint(0, 12))] if b else []]})
    for n in [511, 512, 513, 1023, 1025, 4097] if ctx.quick else range(500, 5000, 37):
        enc([R.randrange(256) for _ in range(n)])
    for n in [1, 2, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        s, t = [R.randrange(256) for _ in range(R.choice([3, 6]))], [R.randrange(256) for _ in range(R.randint(0, 5))]
        h, ht = B(bytes(s).hex()), B(bytes(t).hex().upper())
        for k, a, b in (("hex_enc", s, t), ("b64_enc", s, t), ("hex_dec", h, ht), ("b64_dec", list(base64.b64encode(bytes(s))), list(base64.b64encode(bytes(t)))), ("hex_dec", h, ht[1:]), ("hex_dec", h, ht + B("0g"))):
            if k == "b64_dec" and not b:
                continue
            out.append({"o": "codec_bulk", "i": [k, a, n, b]})
    return out


def canary(r):
    if r["o"] in ("hex_enc", "b64_enc") and r["r"][0]:
        r["r"][0][-1] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["codec.cpp"])
        em = vlib.model_check(ctx, "MCCodec", cfg([0, 1, 62, 250, 255] if q else [0, 1, 62, 128, 250, 255], 4 if q else 5, B("09aF=g/") if q else B("09aFf=gG/+@"), 4))
        exe = hb.result()
    vlib.bind(ctx, exe, "CodecTrace", em, gen(ctx), canary)
