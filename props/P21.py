import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["variables are int, string and unsigned short (other value types: P03, P04, P29)", "key 4294967295 of unsigned integer keys is not registered (it is the library's 'no key')",
               "numeric keys are written with at most 19 digits; the count of failures is that of the last parse that ignored failures"]
CFG = ('CONSTANTS Kind = "%s"\nKeyBytes = {%s}\nMaxLen = %d\nSPECIFICATION Spec\nINVARIANTS Agrees OnlyRegistered StrictMeansAll IgnoringNeverFails\n')


def keys(R, kind):
    n = R.randint(1, 5)
    if kind in ("uint", "ukey"):
        c = ["0", "1", "7", "12", "121", "999", "10", "5"] + (["4294967294", "65536", "2147483648", "4294967290"] if kind == "ukey" else ["11321"])
        return [B(x) for x in R.sample(c, n)]
    c = [B("a"), B("b"), B("ab"), B("Ab"), B("key"), B("x y"), [255, 1], B("1"), B("abcdefghijklmnopqrstuvwxyz")] + ([[]] if kind == "str" else [])
    return R.sample(c, n)


def keytext(R, kind, k):
    x = R.random()
    if kind in ("uint", "ukey"):
        if x < .1:
            return B("0" * R.randint(1, 19 - len(k))) + k
        if x < .2:
            v = int(bytes(k)) if k else 0
            return B(R.choice([str(v + 2**32), str(v + 2**64), str(v + 1), "", "+" + str(v), "-" + str(v), str(v) + " ", "x", " ", str(v) + "x", "9999999999999999999", "18446744073709551616"]))
    elif x < .15:
        return R.choice([[], k + k, k[:-1], [c ^ 32 if 65 <= c < 91 or 97 <= c < 123 else c for c in k], B("zz")])
    return k


def value(R, s):
    if s % 3 == 2:
        return [R.choice(B("abz 09=") + [255, 0]) for _ in range(R.randint(1, 6))]
    if R.random() < .12:
        return B(R.choice(["x", "1x", "-", "99999999999", "65536", "-1", "1.5", " 1"]))
    return B(R.choice(["0", "7", "+5", "00012", "65535", "123", str(R.randint(0, 60000))])) if R.random() < .6 or s % 3 == 0 else B(R.choice(["-9", "2147483647", "-2147483648"]))


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(2200 if ctx.quick else 40000):
        kind = R.choice(["str", "str", "cust", "uint", "uint", "ukey"])
        ks = keys(R, kind)
        bd, pd = R.choice([(124, 61), (59, 61), (44, 58), (0, 255), (38, 0), (10, 9), (61, 61)])
        es, slot = [], {}
        for k in ks:
            s = R.randint(1, 6)
            es.append(["reg", k, s])
            slot[bytes(k)] = s
        if R.random() < .2:
            k = R.choice(ks)
            s = R.randint(1, 6)
            es.append(["reg", k, s])
            slot[bytes(k)] = s
        for _ in range(R.randint(1, 4)):
            t = []
            nb = R.choice([0, 1, 2, 3, 5, 9, 40])
            for b in range(nb):
                k = R.choice(ks)
                x = R.random()
                if x < .08:
                    blk = []
                elif x < .14:
                    blk = R.choice([k, k + [pd], [pd], [pd, pd], [pd] + value(R, 1)])
                else:
                    kt = k if R.random() < .75 else keytext(R, kind, k)
                    v = value(R, slot[bytes(k)])
                    if kind == "cust" and R.random() < .9:
                        v = v[:4]
                    blk = kt + [pd] + v
                if R.random() < .93:
                    blk = [c for c in blk if c != bd]
                t += blk + ([bd] if b < nb - 1 or R.random() < .3 else [])
            es.append(["feed", t, int(R.random() < .55)])
            if R.random() < .15:
                k = R.choice(ks)
                s = R.randint(1, 6)
                es.append(["reg", k, s])
                slot[bytes(k)] = s
        out.append({"o": "kv", "i": [kind, bd, pd, R.choice([1, 8, 200, 20000]), es]})
    for n in [65537] if ctx.quick else [65536, 65537, 100003]:
        for kind, a, b in (("str", "a", "bb"), ("uint", "65536", "69999"), ("ukey", "7", "4294967290"), ("cust", "a", "Bc")):
            regs = [["reg", B(a), R.choice([1, 4])], ["reg", B(b), R.choice([2, 5])]]
            for bad in ("", "zz=1;", "5;5=5;"):
                out.append({"o": "kv_bulk", "i": [kind, 59, 61, 70000, regs, B(bad + a + "=12;"), n, B(b + "=xy;" + a + "=" + str(R.randint(0, 999)))]})
        regs = [["reg", B(str(k)), 1 + k % 6] for k in (65535, 65536, 65537, 69999, 70000, 0)]
        out.append({"o": "kv", "i": ["uint", 59, 61, 70000, regs + [["feed", B("65535=1;65536=2;65537=3;0=4;69999=5;70000=6"), 1]]]})
    # keys and values of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"kv": [(4, "*", "*")]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "kv_bulk":
        return None
    v = r["r"][0][-1][2]
    v[0] = [57, 57]
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["keyvalue.cpp"])
        em = []
        for kind, kb in (("str", "97, 49"), ("uint", "48, 49"), ("cust", "97, 65")):
            em += vlib.model_check(ctx, "MCKeyValue", CFG % (kind, kb, 5 if q else 6))
        exe = hb.result()
    vlib.bind(ctx, exe, "KeyValueTrace", em, gen(ctx), canary)
