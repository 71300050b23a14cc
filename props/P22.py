import vlib, math, concurrent.futures as cf

ASSUMPTIONS = ["counts fit into 64 bits; positions of n-th arrangements are inside the enumeration; the number selected is at most the number there is for the cursor forms",
               "items are compared by value: with equal items next_combination and combination_iterator visit each distinct selection once",
               "an iterator over an empty list is at its end"]
CFG = "CONSTANTS MaxN = %d\nValues = {%s}\nMaxItems = %d\nSPECIFICATION Spec\nINVARIANTS NeverTwice InOrder Nth Everything Out\n"


def gen(ctx):
    R = ctx.rng
    q = ctx.quick
    out = []
    # counting: in one process, in any order, small tables and large
    for _ in range(25 if q else 250):
        ps = []
        for _ in range(R.randint(1, 30)):
            while True:
                n = R.choice([R.randint(0, 70), R.randint(0, 12), R.randint(98, 103), R.randint(60, 140), R.randint(100, 620)])
                k = R.choice([R.randint(0, n), R.randint(0, min(n, 8)), n - R.randint(0, min(n, 5)), n + 1])
                if math.comb(n, k) < 2**63:
                    break
            ps.append([n, k])
        out.append({"o": "choose", "i": [ps]})
    for n in range(0, 67 if q else 68):
        out.append({"o": "choose", "i": [[[n, k] for k in range(0, n + 2) if math.comb(n, k) < 2**63]]})
    for _ in range(250 if q else 4000):
        n = R.randint(0, 8 if q else 9)
        v = [R.randint(1, 120) for _ in range(n)] if R.random() < .7 else [R.randint(1, 3) for _ in range(n)]
        k = R.randint(0, n + 1)
        c = math.comb(n, k)
        out.append({"o": "fcomb", "i": [v, k, R.choice([0, 1, R.randint(1, c + 1), max(1, c), c + 1])]})
        m = R.randint(0, 5 if q else 6)
        w = v[:m]
        out.append({"o": "fperm", "i": [w, R.choice([0, 0, 1, R.randint(1, 30)])]})
        if n:
            k = R.randint(0, n)
            d = len(set(v)) == n
            out.append({"o": "ncomb", "i": [v, k, R.randint(0, math.comb(n, k) - 1) if d else 0]})
            out.append({"o": "citer", "i": [v, k, R.choice([1, 1, 2, 3, 7])]})
    for _ in range(500 if q else 6000):
        n = R.choice([R.randint(0, 12), R.randint(8, 30), R.randint(95, 130)])
        k = R.randint(0, n) if n <= 30 else R.choice([0, 1, 2, 3, 4, n, n - 1])
        c = math.comb(n, k)
        i = min(R.choice([0, c - 1, R.randint(0, c - 1)]), 2**31 - 1)
        if c >= 2**30:
            continue
        out.append({"o": "nthc", "i": [i, n, k]})
        if n <= 30:
            out.append({"o": "nthcs", "i": [i, [R.randint(0, 127) for _ in range(n)], k]})
        m = R.randint(0, 12)
        f = math.factorial(m)
        out.append({"o": "nthp", "i": [R.choice([0, f - 1, R.randint(0, f - 1)]), [R.randint(1, 127) for _ in range(m)]]})
    # positions and arrangements beyond 32 bits, up to what 64 bits can number
    for _ in range(60 if q else 900):
        m = R.randint(12, 20)
        f = math.factorial(m)
        out.append({"o": "bigp", "i": [list(str(R.choice([f - 1, f // R.randint(2, m), f // R.randint(2, m) - 1, R.randint(0, f - 1), R.randint(0, f - 1)])).encode()), [R.randint(1, 127) for _ in range(m)]]})
        while True:
            n = R.choice([R.randint(20, 66), R.randint(60, 66), R.randint(99, 104), R.randint(60, 130)])
            k = R.choice([R.randint(0, n), R.randint(2, min(n, 12)), n - R.randint(0, min(n, 6))])
            c = math.comb(n, k)
            if c < 2**63:
                break
        i = R.choice([c - 1, R.randint(0, c - 1), R.randint(0, c - 1), math.comb(n - 1, k - 1) - R.randint(0, 1) if k else 0, R.randint(0, min(c - 1, 2**33))])
        out.append({"o": "bigc", "i": [list(str(max(0, min(i, c - 1))).encode()), [R.randint(0, 127) for _ in range(n)], k]})
    return out


def canary(r):
    if not r["r"] or not r["r"][0]:
        return None
    r["r"][0] = r["r"][0][:-1]
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["combi.cpp"])
        em = vlib.model_check(ctx, "MCCombi", CFG % ((7, "1, 2, 3", 4) if q else (8, "1, 2, 3", 5)))
        exe = hb.result()
    vlib.bind(ctx, exe, "CombiTrace", em, gen(ctx), canary)
