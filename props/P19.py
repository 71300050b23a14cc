import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["a composite write that does not fit may leave a prefix of its parts written (its position says which); nothing beyond that position changes",
               "values are compared byte by byte in native little endian order; bool and long double (padding bytes) are not transferred"]
CFG = "CONSTANTS Cap = %d\nDepth = %d\nTypes = {%s}\nSPECIFICATION Spec\nINVARIANTS InBuffer MarksInBuffer RoundTrip\n"
W = {"u8": 1, "i8": 1, "c": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8, "l16": 2, "l32": 4, "l64": 8,
     "b16": 2, "b32": 4, "b64": 8, "bi16": 2, "bi32": 4, "bi64": 8, "fix2": 4, "fix4": 8, "arr": 6}
SEQ = {"vu16": "u16", "raw": "u16", "raw8": "u16", "vf64": "f64", "vstr": "str", "du32": "u32", "dstr": "str", "lstr": "str", "lu8": "u8", "su16": "u16",
       "sstr": "str", "mu8": "u8", "mstr": "str", "vpair": "pair1", "vrec": "rec", "vvu16": "vu16"}
TYPES = list(W) + list(SEQ) + ["str", "sst", "pst", "pair", "rec", "arrn"]


def value(R, t):
    bs = lambda n: [R.choice([0, 1, 127, 128, 255, R.randint(0, 255)]) for _ in range(n)]
    if t in W:
        return bs(W[t])
    if t in ("str", "sst", "pst"):
        return bs(R.choice([0, 0, 1, 2, 3, 5, 8]))
    if t in SEQ:
        return [value(R, SEQ[t]) for _ in range(R.choice([0, 0, 1, 2, 3, 4]))]
    if t == "pair":
        return [bs(4), value(R, "str")]
    if t == "pair1":
        return [bs(1), value(R, "str")]
    if t == "rec":
        return [bs(4), value(R, "str"), value(R, "vu16"), value(R, "pair1")]
    return [[3] + [0] * 7, bs(6)]


def gen(ctx):
    R = ctx.rng
    out = []
    for k in range(500 if ctx.quick else 12000):
        cap = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 24, 31, 32, 40, 48, 64])
        if k % 25 == 0:
            cap = R.choice([256, 257, 258, 300])
        palette = R.sample(TYPES, R.randint(1, 4)) if R.random() < .7 else TYPES
        es, marks, hist = [], 0, []
        for _ in range(R.randint(2, 14)):
            x = R.random()
            if x < .4:
                t = R.choice(palette)
                v = value(R, t)
                if cap >= 256 and t in ("str", "pst", "sst"):
                    v = [R.randint(0, 255) for _ in range(R.choice([253, 254, 255, 256, 257]))]
                es.append(["w", t, v])
                hist.append(t)
            elif x < .66:
                if hist and R.random() < .75:
                    es.append(["r", hist.pop(0)])
                else:
                    es.append(["r", R.choice(palette)])
            elif x < .72:
                t = R.choice([B("abc"), B("7"), B("1234"), B("-5 x"), [], B("%d" % R.randint(0, 99999)), [R.randint(0, 255) for _ in range(R.randint(1, 9))]])
                es.append(["t", t, R.choice([0, 1, len(t), len(t), len(t) + 1, len(t) + 4, 2 * len(t), 2 * len(t) + 1, cap, cap + 1, 9]), R.randint(0, 1), R.choice([32, 32, 48, 0, 255])])
            elif x < .75:
                es.append(["u", R.choice([0, 1, 2, 3, cap, cap + 1])])
            else:
                e = R.choice(["wm", "wm", "rm", "rm", "wb", "wb", "rb", "rb", "w0", "r0", "r0", "wc", "rc", "fo", "fi", "fq", "sk", "sk", "rw"])
                es.append([e, R.choice([0, 1, -1, 2, -2, cap, -cap, cap + 1, 3, 2147483647 - cap, -2147483648 if R.random() < .1 else -2147483647])] if e == "sk" else
                          [e, R.choice([0, 1, 2, 4, cap, cap + 1])] if e in ("rw", "fi") else [e])
        out.append({"o": "binary", "i": [cap, R.choice([0, 1, 170, 255]), es]})
    # marks nest: every one set is found again, also those set twice at one position
    for _ in range(60 if ctx.quick else 1000):
        es, cap = [], R.choice([4, 8, 16, 40])
        for _ in range(R.randint(4, 30)):
            es.append(R.choice([["w", "u8", [R.randint(0, 255)]], ["r", "u8"], ["wm"], ["wm"], ["rm"], ["rm"], ["wb"], ["rb"], ["wm"], ["wb"], R.choice([["w0"], ["r0"], ["u", R.choice([1, 2, cap])], ["wc"], ["rc"]])]))
        out.append({"o": "binary", "i": [cap, 0, es + [["wb"], ["rb"]] * R.randint(0, 4)]})
    ws = [1, 2, 4, 8, 8, 1, 2, 4, 8, 4, 1, 2]
    for n in range(1, 13):
        for _ in range(2 if ctx.quick else 10):
            out.append({"o": "pods", "i": ["args", [[R.randint(0, 255) for _ in range(w)] for w in ws[:n]]]})
    for k in ("seq", "list", "set", "mset", "arr"):
        for _ in range(10 if ctx.quick else 60):
            n = R.choice([1, 2, 3, 5]) if k == "arr" else R.randint(0, 6)
            pool = [[R.randint(0, 255), R.choice([0, R.randint(0, 255)])] for _ in range(4)]
            out.append({"o": "pods", "i": [k, [R.choice(pool) for _ in range(n)]]})
    # a file written earlier is read back over other contents
    for k in range(20 if ctx.quick else 200):
        t, u = R.choice(["u32", "u64", "b32", "str", "vu16"]), R.choice(["u32", "u64", "u8"])
        es = [["w", t, value(R, t)], ["w", u, value(R, u)], ["fo"], ["w0"], ["w", t, value(R, t)], ["w", "u64", [R.randint(0, 255) for _ in range(8)]], ["r", t], [R.choice(["fq", "fq", "fi"])], ["r", u], ["r0"], ["r", t], ["r", u]]
        out.append({"o": "binary", "i": [R.choice([64, 64, 40]), 170, [e + [R.choice([0, 3, 8, 9])] if e == ["fi"] else e for e in es]]})
    # long strings and containers, more than 255 elements
    for n in [255, 256, 257, 300, 700] * (1 if ctx.quick else 5):
        for t in ("str", "sst", "pst", "vu16", "raw", "raw8", "vf64", "du32", "lu8", "su16", "mu8", "vstr", "dstr"):
            if ctx.quick and R.random() < .5:
                continue
            v = [R.randint(0, 255) for _ in range(n)] if t in ("str", "sst", "pst") else [value(R, SEQ[t]) for _ in range(n)]
            if t in ("su16", "mu8"):
                v = [[k % 256, k // 256][:2 if t == "su16" else 1] for k in range(n)]
            cap = R.choice([12000, 12000, n + 3, n + 4, 2 * n + 3, 2 * n + 4])
            out.append({"o": "binary", "i": [cap, 170, [["w", t, v], ["w", "u8", [7]], ["r", t], ["r", "u8"]]]})
    for n in [3, 65537 + R.randint(0, 3000)] + [R.choice([32768, 65535, 65536]) for _ in range(1 if ctx.quick else 10)]:
        for t in ("str", "sst", "vu16", "raw", "raw8", "vf64", "du32", "lu8", "vstr", "dstr"):
            text = t in ("str", "sst")
            u = [R.randint(0, 255) for _ in range(1)] if text else [value(R, SEQ[t])]
            if t == "sst" and n > 99:
                n = R.choice([65535, 65536, n, 40000])
            h = 2 if t == "sst" else 4
            need = h + n * (len(u) if text else (4 + len(u[0]) if SEQ[t] == "str" else len(u[0])))
            out.append({"o": "binary_bulk", "i": [t, u, n, need + R.choice([0, 0, 7, 1000, -1]), h]})
        out.append({"o": "pods_bulk", "i": [[value(R, "u16") for _ in range(R.randint(1, 2))], n]})
    return out


def canary(r):
    if r["o"] == "pods":
        r["r"][2] ^= 1
        return r
    if not r["r"]:
        return None
    r["r"][-1][2] += 1
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["binary.cpp"])
        em = vlib.model_check(ctx, "MCBinary", CFG % ((5, 4, '"u8", "b16", "pst"') if q else (6, 4, '"u8", "b16", "pst", "vu16", "mu8", "str"')))
        em += vlib.model_check(ctx, "MCBinary", CFG % ((7, 3, '"vu16", "lstr", "str", "mu8"') if q else (9, 4, '"vu16", "lstr", "pair"')))
        exe = hb.result()
    if len(em) > (4000 if q else 40000):
        em = ctx.rng.sample(em, 4000 if q else 40000)
    for r in em:
        r.pop("exp")
        r["m"] = 1
    vlib.bind(ctx, exe, "BinaryTrace", [], gen(ctx) + em, canary)
