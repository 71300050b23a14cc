import vlib, concurrent.futures as cf
from vlib import B
from P07 import tok, badtok

ASSUMPTIONS = ["element types int and string (other types: P03, P04)", "the two iterator form of an adaptor is only given fields that convert", "a pointer adaptor is given room for every field that converts",
               "an unlimited sink counts fields, converting or not, when it reports success"]
CFG = 'CONSTANTS FieldCount = %d\nMaxGiven = %d\nAlphabet = {%s}\nMaxLen = %d\nMaxTake = %d\nKinds = {"seq", "set", "mset"}\nSPECIFICATION Spec\nINVARIANTS GiveRight GiveOut RowRight Limited KeptOld\nPROPERTY RowEnds\n'


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(120 if ctx.quick else 2500):
        f = [R.choice([B("5"), B("05"), tok(R, 1), tok(R, 1), badtok(R, 1), tok(R, 2), []]) for _ in range(R.choice([0, 1, 2, 3, 6, 12]))]
        if f and R.random() < .4:
            f += [R.choice(f)]
        out.append({"o": "deliver", "i": [f, R.choice("is")]})
        g = [R.choice([B("5"), B("7"), B(str(R.randint(-10**9, 10**9)))]) for _ in range(R.choice([0, 1, 2, 3, 6, 12]))]
        out.append({"o": "values", "i": [g, "i"]})
        out.append({"o": "values", "i": [[R.choice([B("zz"), tok(R, 2), []]) for _ in range(R.choice([0, 1, 2, 5]))], "s"]})
        dl = R.choice([[44], B(",;"), [32], [255, 0]])
        t = []
        for k in range(R.choice([2, 3, 3, 3, 3, 4])):
            if k or R.random() < .05:
                t += B("|") * R.choice([1, 1, 1, 2])
            for j in range(R.choice([0, 1, 2, 3, 5]) if k != 1 else 1):
                if j or R.random() < .1:
                    t += [R.choice(dl) for _ in range(R.choice([1, 1, 2]))]
                t += R.choice([B("5"), B("05"), tok(R, 1), tok(R, 1), badtok(R, 1), B("1")])
        d = list(dl) + ([1] if R.random() < .2 else [])
        for ty in "is":
            out.append({"o": "sinks", "i": [t, d, R.choice([0, 1, 1, 1, 2, 3, 4, 5, 6, 7]), R.choice([-1, -1, 0, 1, 2, 3, 50]), ty]})
        out.append({"o": "unbound", "i": [t]})
    for n in [70, 257, 300] * (1 if ctx.quick else 6):
        out.append({"o": "deliver", "i": [[tok(R, 1) if R.random() < .97 else badtok(R, 1) for _ in range(n)], R.choice("is")]})
        out.append({"o": "values", "i": [[B(str(R.randint(-10**9, 10**9))) for _ in range(n)], "i"]})
        t = B("1,2|") + [x for k in range(n) for x in [44] * (k > 0) + tok(R, 1)] + B("|5,6")
        out.append({"o": "sinks", "i": [t, [44], 1, R.choice([-1, n, n + 1, 64]), R.choice("is")]})
    for n in [3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 10)]:
        out.append({"o": "bulk", "i": [R.choice([[B("7")], [B("-3"), badtok(R, 1), B("12")], [B("5"), tok(R, 1), tok(R, 1)]]), n]})
    # tokens of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"deliver": [(0, "*")], "sinks": [(0,)], "unbound": [(0,)], "values": [(0, "*")]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "deliver" and r["r"][0]:
        r["r"][0] = r["r"][0][:-1]
        return r
    if r["o"] == "sinks":
        r["r"][1][0] = 1 - r["r"][1][0]
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["sinks.cpp"])
        em = vlib.model_check(ctx, "MCSinks", CFG % (6 if q else 8, 3 if q else 4,
                                                     ",".join(map(str, B("1x|;"))), 6 if q else 7, 2))
        exe = hb.result()
    vlib.bind(ctx, exe, "SinksTrace", em, gen(ctx), canary)
