import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["fast converters are exercised inside their documented domain (digits only unless the digit check is requested; results that fit the type)"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nHiB = 127\nLoB = 128\nDigits = 3\nSeeds = %s\nDoInt = %s\nDoReal = %s\nSPECIFICATION Spec\n"
       "INVARIANTS IntExact NoOverflow IsGrammar AutomatonAgrees ScaleFree\nPROPERTY Terminates\n")


def cfg(al, n, seeds, di, dr):
    tf = lambda b: "TRUE" if b else "FALSE"
    return CFG % (",".join(map(str, al)), n, tf(seeds), tf(di), tf(dr))


LIM = [2**15, 2**16, 2**31, 2**32, 2**63, 2**64]


def intnum(R):
    k = R.random()
    if k < .35:
        v = R.choice(LIM) + R.choice([-2, -1, 0, 1, 2, R.randint(-20, 20)])
    elif k < .7:
        v = R.getrandbits(R.randint(1, 66))
    elif k < .8:
        v = R.choice(LIM) * 10 + R.randint(-11, 11)
    else:
        v = R.randint(0, 10 ** R.randint(1, 24))
    return abs(v)


def gen(ctx):
    R = ctx.rng
    out = []
    for c in range(256):
        for w in ([c], [c, 49], [49, c], [49, 50, c, 51], [45, c]):
            out.append({"o": "int_parse", "i": [w]})
            out.append({"o": "small_parse", "i": [w]})
            out.append({"o": "fast_check", "i": [w]})
            out.append({"o": "fast_conv", "i": [w]})
    # every length, every position: a digit's weight, and the bytes next to the digits
    for n in range(19, 26):
        for h in ([], [45], [43]):
            out.append({"o": "fast_check", "i": [h + [48 + (3 * k + n) % 10 for k in range(n)]]})
    for n in range(1, 21):
        for p in range(n):
            for c in (57, 47, 58):
                w = [48 + (7 * k + n) % 9 for k in range(n)]
                w[p] = c
                out.append({"o": "int_parse", "i": [w]})
                if n <= 19:
                    out.append({"o": "fast_check", "i": [w]})
                    out.append({"o": "fast_conv", "i": [w]})
                if n <= 18:
                    w2 = [R.choice([43, 45])] + w
                    out.append({"o": "int_parse", "i": [w2]})
                    out.append({"o": "fast_check", "i": [w2]})
                    out.append({"o": "fast_signed", "i": [w2]})
    for _ in range(500 if ctx.quick else 20000):
        s = R.choice(["", "", "-", "+", "--", "+-", " "]) + "0" * R.choice([0, 0, 0, 1, 3, 30, 300]) + str(intnum(R))
        b = B(s)
        if R.random() < .25:
            b.insert(R.randint(0, len(b)), R.randrange(256))
        if R.random() < .1:
            b[R.randrange(len(b))] = R.choice([47, 58, 32, 0, 255, 46, 101])
        out.append({"o": "int_parse", "i": [b]})
        d = [R.choice(B("0123456789")) for _ in range(R.randint(0, 19))]
        if R.random() < .3 and d:
            d[R.randrange(len(d))] = R.choice([47, 58, 0, 176, 255, 45])
        out.append({"o": "fast_conv", "i": [d]})
        v = B(str(R.choice([2 ** 64 - 1, 2 ** 63 - 1, 2 ** 63, 10 ** 19, 10 ** 19 - 1, 10 ** 18, R.randrange(2 ** 64), R.randrange(10 ** R.randint(1, 19)), 0])))
        v = [48] * R.choice([0, 0, 1, 2, max(0, 19 - len(v)), max(0, 20 - len(v)), max(0, 21 - len(v)), 30]) + v
        out.append({"o": "fast_free", "i": [R.choice([[], [], [45], [43]]) + v]})
        d2 = R.choice([[], [45], [43]]) + d[:18]
        if d2:
            out.append({"o": "fast_check", "i": [d2]})
        if d2 and d2 not in ([45], [43]) and len(d2) - (d2[0] in (43, 45)) <= 18 and len(d) <= 18:
            out.append({"o": "fast_signed", "i": [d2]})
    return out


def canary(r):
    if r["o"] == "int_parse":
        r["r"][2][0][1] = [57]
        r["r"][2][0][0] = 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["num.cpp", "fastnum.cpp"])
        em = vlib.model_check(ctx, "MCNum", cfg(B("+-0129:") if q else B("+-01289/:"), 4 if q else 5, True, True, False))
        exe = hb.result()
    em = [r for r in em if r["o"] not in ("int_print", "real_accept")]
    vlib.bind(ctx, exe, "NumTrace", em, gen(ctx), canary)
