import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["a text to insert into is addressed up to its end; positions beyond it change nothing", "values laid out are strings, single characters and integers (how values are written: P05)", "letters are the ASCII letters"]
CFG = 'CONSTANTS TextBytes = {%s}\nMaxText = %d\nMaxSteps = %d\nMaxPos = %d\nSPECIFICATION Spec\nINVARIANTS Padding Swapping InsRem Taking Converting Untouched Agrees Out\n'


def gen(ctx):
    R = ctx.rng
    out = []

    def text(n):
        return [R.choice(B("abzAZ09 ~!") + [0, 10, 127, 128, 223, 255, 32, 33, 126, 64, 91, 96, 123]) if R.random() < .7 else R.randint(0, 255) for _ in range(R.randint(0, n))]

    def step(n):
        w = R.choice(["center", "right", "left", "rest", "swap", "remove", "insert", "insert", "upper", "lower", "print"])
        a = R.choice([0, 1, n, max(0, n - 1), n + 1, R.randint(0, n + 3), 60])
        b = {"rest": R.randint(0, 1), "swap": R.choice([0, n, max(0, n - 1), R.randint(0, n + 2)])}.get(w, R.choice([32, 45, 0, 255, R.randint(0, 255)]))
        return [w, a, b]
    for _ in range(2500 if ctx.quick else 40000):
        s = text(R.choice([0, 1, 2, 5, 12, 40]))
        out.append({"o": "layout", "i": [s, [step(len(s)) for _ in range(R.choice([1, 1, 2, 5]))]]})
        out.append({"o": "kinds", "i": [text(3) if R.random() < .5 else [R.choice(B("abz09AF")) for _ in range(R.randint(0, 5))]]})
        out.append({"o": "values", "i": [R.choice([0, 1, 2, 3, 5, 10, 11, 12, 40]), R.choice([32, 48, 0, 255]), B(str(R.choice([0, 7, 42, -1, R.randint(-2**31, 2**31 - 1)])))]})
    allb = list(range(256))
    for w in ("upper", "lower", "print"):
        out.append({"o": "layout", "i": [allb, [[w, 0, 0]]]})
        out.append({"o": "layout", "i": [allb[::-1], [[w, 0, 0], ["center", 301, 32], ["swap", 0, 300], ["insert", 301, 0], ["remove", 0, 0]]]})
    out += [{"o": "kinds", "i": [[c]]} for c in range(256)]
    for n in [65537] if ctx.quick else [65536, 65537, 70001]:
        long = [(k * k) % 251 for k in range(n)]
        for w in ("center", "right", "left"):
            out.append({"o": "layout", "i": [text(5), [[w, n, 46]]]})
            out.append({"o": "layout", "i": [long, [[w, n + R.choice([-1, 0, 1, 7]), 46]]]})
        out.append({"o": "layout", "i": [long, [["rest", R.choice([n - 1, n, 65536]), R.randint(0, 1)], ["upper", 0, 0]]]})
        out.append({"o": "layout", "i": [long, [["swap", 0, n - 1], ["remove", R.choice([65536, 65535, 3]), 0], ["insert", R.choice([65536, 65535]), 9], [R.choice(["upper", "lower", "print"]), 0, 0]]]})
        out.append({"o": "values", "i": [n, 48, B("-17")]})
    return out


def canary(r):
    if r["o"] == "layout" and r["r"] and r["r"][0]:
        r["r"][0][0] ^= 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["layout.cpp"])
        em = vlib.model_check(ctx, "MCLayout", CFG % (("97, 66, 9", 3, 1, 4) if q else ("97, 66, 9", 3, 2, 4)))
        exe = hb.result()
    vlib.bind(ctx, exe, "LayoutTrace", em, gen(ctx), canary)
