import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["a handle is assigned from a bound handle", "converting text into an attribute stores the value without moving the previous one", "semantic actions and handles are used while what they refer to lives"]
CFG = 'CONSTANTS Kind = "%s"\nMaxSteps = %d\nSPECIFICATION Spec\nINVARIANTS AttrRight SetSet HandRight ScopeRight ScopeNone Out\n'


def gen(ctx):
    R = ctx.rng
    out = []
    num = lambda: B(R.choice(["0", "7", "-7", "+7", "007", "2147483647", "-2147483648", str(R.randint(-2**31, 2**31 - 1))]))
    bad = lambda: B(R.choice(["", "x", "1x", "-", "2147483648", " 1", "99999999999"]))
    text = lambda n=4: [R.choice(B("ab7 |") + [0, 255]) for _ in range(R.randint(0, n))]
    for _ in range(1000 if ctx.quick else 15000):
        ty = R.choice("iss" if R.random() < .3 else "i")
        steps = []
        for _ in range(R.randint(1, 7)):
            w = R.choice(["set", "set", "parse", "parse", "write", "back", "forget", "make", "copy"])
            t = num() if ty == "i" else [c for c in text() if c != 124]
            if w == "parse" and ty == "i" and R.random() < .4:
                t = bad()
            steps.append([w, t])
        out.append({"o": "attr", "i": [ty, steps]})
        b = [0, 0, 0]
        steps = []
        for _ in range(R.randint(1, 10)):
            w = R.choice(["bind", "copy", "assign", "clear", "parse", "parse", "parse"])
            h, k = R.randint(1, 3), R.randint(1, 3)
            if w == "bind":
                k = R.randint(1, 4)
                b[h - 1] = k
            elif w == "clear":
                b[h - 1] = 0
            elif w in ("copy", "assign"):
                if w == "assign" and not b[k - 1]:
                    continue
                b[h - 1] = b[k - 1]
            t = R.choice([num(), num(), bad(), B(str(R.randint(0, 70000))), text()]) if w == "parse" else []
            steps.append([w, h, k, t])
        out.append({"o": "handles", "i": [steps]})
        out.append({"o": "scopes", "i": [R.randint(-9, 9), [[w, R.randint(0, 1) if w != "write" else R.randint(-9, 99)] for w in R.choices(["open", "open", "write", "write", "switch", "close"], k=R.randint(0, 9))]]})
        ids = [R.randint(0, 12) for _ in range(R.choice([0, 1, 2, 5, 10]))]
        out.append({"o": "owned", "i": [R.choice(["vector", "deque", "list", "set", "multiset", "map", "multimap"]), ids, R.sample(range(13), R.choice([0, 1, 4, 13]))]})
        ps = [[R.randint(0, 4), R.randint(0, 99)] for _ in range(R.randint(0, 9))]
        out.append({"o": "keys", "i": [ps, R.randint(0, 5)]})
        out.append({"o": "push", "i": [[R.randint(0, 9) for _ in range(R.randint(0, 3))], [R.randint(0, 20) for _ in range(R.randint(1, 10))]]})
        if R.random() < .3:
            out.append({"o": "action", "i": [text(8), R.randint(0, 1)]})
    # texts of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"action": [(0,)], "attr": [(1, "*", "*")], "handles": [(0, "*", "*")], "keys": [(0, "*")]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "attr":
        r["r"][0][0][1] = 1 - r["r"][0][0][1]
        return r
    if r["o"] == "scopes":
        r["r"][0][-1] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(4) as ex:
        hb = ex.submit(vlib.build, ctx, ["hold.cpp"])
        fs = [ex.submit(vlib.model_check, ctx, "MCHold", CFG % k) for k in ((("attr", 3), ("handles", 3), ("scopes", 5)) if q else (("attr", 4), ("handles", 4), ("scopes", 7)))]
        em = [r for f in fs for r in f.result()]
        exe = hb.result()
    vlib.bind(ctx, exe, "HoldTrace", em, gen(ctx), canary)
