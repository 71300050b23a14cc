import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["regular expressions: three representative expressions with hand-written recognisers in the specification", "predicates without memory"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nTypes = {%s}\nNs = {%s}\nSPECIFICATION Spec\n"
       "INVARIANTS Sound Complete Agrees Maximal\nPROPERTY Terminates\n")


def cfg(al, n, ty, ns):
    return CFG % (",".join(map(str, al)), n, ",".join(map(str, ty)), ",".join(map(str, ns)))


def gen(ctx):
    R = ctx.rng
    out = []
    for c in range(256):
        out.append({"o": "char_class", "i": [[c]]})
    for _ in range(350 if ctx.quick else 5000):
        pool = R.choice([B("0a"), B("019azAZ"), list(range(256)), B("ab0(="), B("/09:@AZ[`az{"), B("a=1b2()")])
        s = [R.choice(pool) for _ in range(R.choice([0, 1, 2, 3, 5, 8, 13, 40, 90]))]
        t, m, n = R.randrange(5), R.randrange(2), R.choice([1, 1, 2, 3, 4, 7, 40])
        out.append({"o": "runs_find", "i": [s, t, m, n]})
        out.append({"o": "runs_match", "i": [s, t, m, n]})
        out.append({"o": "runs_split", "i": [s, t, m, n]})
        out.append({"o": "runs_split_n", "i": [s, t, m, R.choice([0, 1, 2, 3, 9]), n]})
        p = R.sample(pool, min(len(pool), R.randint(1, 5)))
        out.append({"o": "runs_pred", "i": [s, p, n]})
        out.append({"o": "runs_pred_n", "i": [s, p, R.choice([0, 1, 2, 3, 9]), n]})
        x = R.randrange(3)
        g = R.randrange(3) if x == 2 else 0
        out.append({"o": "regex", "i": [s, x, g]})
        out.append({"o": "regex_n", "i": [s, x, g, R.choice([0, 1, 2, 5])]})
        out.append({"o": "split_pair", "i": [s, p]})
        w = [R.choice([1, 1, 2, 3, 5, 9, R.randint(1, 70), 1000] + [0, -1] * (R.random() < .1)) for _ in range(R.randint(1, 12))]
        out.append({"o": "offset", "i": [s, w, R.randint(0, 1)]})
    for n in [257, 300, 600, 1030, 2050] * (1 if ctx.quick else 6):
        pool = R.choice([B("0a"), B("019azAZ"), B("ab0(="), B("a=1b2()")])
        s = [R.choice(pool) for _ in range(n)]
        t, m, k = R.randrange(5), R.randrange(2), R.choice([1, 2, 3])
        for o in ("runs_find", "runs_match", "runs_split"):
            out.append({"o": o, "i": [s, t, m, k]})
        out.append({"o": "runs_split_n", "i": [s, t, m, R.choice([50, 255, 256, 257, 999]), k]})
        p = R.sample(pool, min(len(pool), 2))
        out.append({"o": "runs_pred", "i": [s, p, k]})
        out.append({"o": "runs_pred_n", "i": [s, p, R.choice([50, 255, 256, 257]), k]})
        out.append({"o": "regex", "i": [s, 0, 0]})
        out.append({"o": "regex_n", "i": [s, 1, 0, R.choice([50, 255, 300])]})
        out.append({"o": "split_pair", "i": [[97] * n + [61] + s, [61]]})
        out.append({"o": "offset", "i": [s, [R.choice([1, 2, 3, 270]) for _ in range(5)], 1]})
    # every arity of offsets(), with widths that tell the positions apart and texts that end around each of them
    for n in range(1, 13):
        for rot in (0, 1):
            w = R.sample(range(1, 13), n)
            for cut in {sum(w), sum(w) + 1, sum(w) * 2 + 1, max(0, sum(w) - 1), R.randint(0, sum(w))}:
                out.append({"o": "offset", "i": [[R.randrange(256) for _ in range(cut)], w, rot]})
    for _ in range(150 if ctx.quick else 2000):
        w = [R.choice([1, 2, 3, 5, R.randint(1, 9)] + [0, -1] * (R.random() < .1)) for _ in range(R.randint(1, 6))]
        es = [[] if R.random() < .3 else [[R.randrange(256) for _ in range(R.choice([0, 1, 2, 5, 9, 20]))]] for _ in range(R.randint(2, 6))]
        out.append({"o": "offset_hist", "i": [w, R.randint(0, 1), es]})
    for n in [65537] if ctx.quick else [65537, 65536, 100003, 70000]:
        for _ in range(2):
            u = [R.choice(B("019azAZ")) for _ in range(R.randint(3, 6))] + [45]
            t, m, k = R.randrange(5), R.randrange(2), R.choice([1, 1, 2])
            out.append({"o": "runs_split_bulk", "i": [u, n, t, m, k]})
            out.append({"o": "runs_pred_bulk", "i": [u, n, R.sample(B("019azAZ"), 3), k]})
            out.append({"o": "runs_find_bulk", "i": [[45, 97, 45, 48], n, [45] + u, t, m, 3]})
            out.append({"o": "runs_match_bulk", "i": [B("az"), n, 1, m, 2 * n + R.choice([-1, 0, 1])]})
            out.append({"o": "pair_bulk", "i": [B("ab"), n, B("cd=ef"), [61]]})
            out.append({"o": "offset_bulk", "i": [[R.randrange(256) for _ in range(5)], n, R.choice([[2, 3], [5], [1, 1, 3]])]})
        out.append({"o": "regex_bulk", "i": [B("a=1b2(0)-"), n, 0, 0]})
        out.append({"o": "regex_bulk", "i": [B("(a)-"), n, 1, 0]})
        out.append({"o": "regex_bulk", "i": [B("ab=12-"), n, 2, R.randrange(3)]})
        out.append({"o": "runs_split_bulk", "i": [[48] * 1 + [45], n, 0, 1, 1]})
        out.append({"o": "offset_bulk", "i": [[7] * 70000, 2, [66000, 4000]]})
    return out


def canary(r):
    if r["o"] in ("runs_split", "offset", "regex", "runs_pred"):
        r["r"][2][0] += 1
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["runs.cpp", "pieces.cpp"])
        em = vlib.model_check(ctx, "MCRuns", cfg(B("0a-") if q else B("0aA-"), 5, [0] if q else [0, 1, 2, 3, 4], [1, 2, 3]))
        em += vlib.model_check(ctx, "MCRuns", cfg(B("1(=)a"), 4 if q else 5, [4], [1]))
        exe = hb.result()
    vlib.bind(ctx, exe, "RunsTrace", em, gen(ctx), canary)
