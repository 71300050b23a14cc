import vlib, base64, concurrent.futures as cf
from vlib import B
from P07 import tok, badtok

ASSUMPTIONS = ["base64 text that is not canonical has no specified value", "decimal_sink: full fraction digits or none after the cut", "case folding is that of the C locale (ASCII)",
               "what a rejected field leaves in its own target is not judged; targets of later fields must be untouched"]
CFG = "CONSTANTS Alphabet = {%s}\nMaxLen = %d\nPipeLen = %d\nSPECIFICATION Spec\nINVARIANTS TrimRight CaseRight RangeRight HexRight B64Right DecRight RowRight\nPROPERTY Terminates\n"


def field(R, k, ad):
    hx = "0123456789abcdefABCDEF"
    if k in ("hex", "hexstr"):
        t = R.choice(["", "", "0x", "0X"]) + "".join(R.choice(hx) for _ in range(R.choice([0, 1, 2, 3, 4, 5, 8, 9, 16, 17])))
        return B(t if R.random() < .85 else t + R.choice("gxG /:@`"))
    if k == "b64":
        raw = bytes(R.randint(0, 255) for _ in range(R.choice([0, 1, 2, 3, 4, 5, 8, 9])))
        t = list(base64.b64encode(raw))
        if R.random() < .2 and t:
            t[R.randrange(len(t))] = R.choice(B("-_= *") + [200])
        return t
    if k in ("rangei", "trimi", "attri", "value"):
        t = tok(R, 1) if R.random() < .3 else B(str(R.randint(-30, 30)))
        if R.random() < .15:
            t = badtok(R, 1)
        if k == "trimi":
            t = [R.choice(B(" *")) for _ in range(R.randint(0, 3))] + t + [R.choice(B(" *")) for _ in range(R.randint(0, 3))]
        return t
    if k == "ranged":
        return B(R.choice(["", "-", "+"]) + str(R.randint(0, 12)) + R.choice(["", ".0", ".25", ".5", ".75"])) if R.random() < .9 else B(R.choice(["x", "abc", "", "q"]))
    if k == "trunc":
        return R.choice([[], B("-"), B("+"), B("00")]) + R.choice([tok(R, 1), B(str(R.randint(0, 99999)))]) + R.choice([[], B("."), B(".5"), B(".25"), B(".125"), B("125"), B(".x")])
    if k == "dec":
        t = R.choice(["", "-", "+", "0", "-000"]) + str(R.randint(0, 10 ** R.randint(0, 7))) + R.choice(["", ".", ".5", ".25", "." + str(R.randint(0, 999999)), ".000001"])
        return B(t if R.random() < .85 else R.choice(["", "-", "+", "x", "1x", "1.x", ".5", "-.25", "1..2", "1.2.3", "0", "000"]))
    al = R.choice([B("aAbB1 "), B(" "), B("az-AZ*?"), list(range(256)), [32, 9, 255, 128, 0]])
    return [R.choice(al) for _ in range(R.choice([0, 1, 1, 2, 3, 5, 9]))]


def adaptor(R, k):
    s = lambda: field(R, "", None)
    return {"expect": lambda: [k, s()], "iexpect": lambda: [k, s()], "like": lambda: [k, R.choice([s(), B("a*"), B("*"), B("?*a"), B("*1*"), B("a?")])],
            "rangei": lambda: [k, R.choice([-2**31, -30, -5, 0, 5]), R.choice([-5, 0, 5, 30, 2**31 - 1])], "ranges": lambda: [k, s(), s()],
            "ranged": lambda: [k, R.randint(-30, 10), R.randint(-10, 50)], "trims": lambda: [k, R.randint(0, 2), R.choice([B(" "), B(" \t"), B("aA"), [255, 0], s()])],
            "trimi": lambda: [k, R.randint(0, 2), R.choice([B(" "), B(" *"), B("0")])], "fill": lambda: [k, R.choice([0, 1, 2, 3, 5])], "hex": lambda: [k, R.choice([2, 4, 8])],
            "b64": lambda: [k, R.choice([2, 4, 8])], "trunc": lambda: [k, R.choice([-1, 0, 1, 2, 3])], "dec": lambda: [k, R.randint(0, 8), R.randint(0, 6)]}.get(k, lambda: [k])()


KINDS = ["expect", "iexpect", "like", "rangei", "ranges", "ranged", "trims", "trimi", "lcase", "ucase", "fill", "hex", "b64", "hexstr", "ignore", "trunc", "dec", "act", "attri", "attrs", "value"]
PIPES = [["expect", "trims", "rangei", "hex"], ["like", "attri", "lcase", "act"], ["trunc", "dec", "fill", "b64"]]


def near(R, k, ad):
    f = field(R, k, ad)
    if k in ("expect", "iexpect", "ranges") and R.random() < .5:
        f = list(ad[R.randint(1, len(ad) - 1)])
        if k == "iexpect":
            f = [c ^ 32 if (65 <= c <= 90 or 97 <= c <= 122) and R.random() < .5 else c for c in f]
        if R.random() < .3 and f:
            f[R.randrange(len(f))] ^= R.choice([32, 1, 128])
    if k == "fill" and R.random() < .6:
        f = [R.choice(B("xy") + [0, 255]) for _ in range(ad[1])]
    if k == "rangei" and R.random() < .4:
        f = B(str(ad[R.randint(1, 2)] + R.choice([-1, 0, 0, 1]) if abs(ad[1]) < 99 and abs(ad[2]) < 99 else ad[R.randint(1, 2)]))
    return f


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(150 if ctx.quick else 4000):
        for k in KINDS:
            ad = adaptor(R, k)
            out.append({"o": "adapt", "i": [ad, near(R, k, ad)]})
        for n, p in enumerate(PIPES):
            ads = [adaptor(R, k) for k in p]
            if n == 0:
                ads[3] = ["hex", 4]
            if n == 2:
                ads[3] = ["b64", 8]
            fs = []
            for a in ads:
                f = near(R, a[0], a)
                while f == [] or 44 in f or f == [75] * len(f):
                    f = near(R, a[0], a) if R.random() < .8 else B("7")
                fs.append(f)
            if n == 0 and R.random() < .7:
                ads[0][1] = list(fs[0])
            if n == 1 and R.random() < .7:
                ads[0][1] = B("*")
            if n == 2 and R.random() < .7:
                fs[0] = B("12.5"); ads[0][1] = -1; fs[1] = B("3.25"); ads[1][1:] = [4, 3]; ads[2][1] = len(fs[2])
            out.append({"o": "pipe", "i": [n, ads, fs]})
    for n in [255, 256, 257, 600] * (1 if ctx.quick else 6):
        f = [R.choice(B("aAbB1")) for _ in range(n)]
        g = [c ^ 32 if 65 <= (c & 223) <= 90 and R.random() < .5 else c for c in f]
        h = f[:-1] + [f[-1] ^ 1]
        for ad, fs in ((["expect", f], (f, h, f[:-1])), (["iexpect", f], (g, h, f[:-1])), (["like", f[:3] + B("*") + f[-3:]], (f, h)), (["ranges", f, f + [49]], (f, f[:-1])),
                       (["trims", R.randint(0, 2), B(" ")], ([32] * n + f + [32] * 3, f + [32] * n)), (["lcase"], (f,)), (["ucase"], (f,)), (["fill", n], (f, f[1:])), (["hexstr"], ([48 + c % 10 for c in f],)),
                       (["ignore"], (f,)), (["act"], (f,)), (["attrs"], (f,)), (["value"], (B("0" * n + "7"),)), (["rangei", 0, 30], (B("0" * n + "7"), B("0" * n + "77")))):
            for x in fs:
                out.append({"o": "adapt", "i": [ad, x]})
    # fields of tens of thousands of bytes
    return out + vlib.stretched(R, [r for r in out if r["o"] != "adapt" or r["i"][0][0] not in ("like", "trunc") or r["i"][0][0] == "like" and 63 not in r["i"][0][1]], {"adapt": [(1,)], "pipe": [(2, 0), (2, 1), (2, 2)]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "adapt" and r["i"][0][0] == "lcase":
        r["r"][0][0] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["adapt.cpp"])
        em = vlib.model_check(ctx, "MCAdapt", CFG % ((",".join(map(str, B("aA1 x0."))), 3, 1) if q else (",".join(map(str, B("aA1 x0.-+"))), 4, 1)))
        exe = hb.result()
    for r in em:
        r.pop("exp")
        r["m"] = 1
    vlib.bind(ctx, exe, "AdaptTrace", [], em + gen(ctx), canary)
