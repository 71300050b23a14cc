import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["the empty key is never stored", "copies of a trie are independent tries"]
CFG = "CONSTANTS Symbols = {97, 98}\nMaxKey = %d\nVals = {%s}\nDepth = %d\nSPECIFICATION Spec\nINVARIANTS FindRight PrefixRight PathsClosed\n"


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(150 if ctx.quick else 3000):
        al = R.choice([B("ab"), B("abc"), list(range(256)), [0, 1, 255], [97]])
        key = lambda: [R.choice(al) for _ in range(R.choice([0, 1, 2, 3, 3, 4, 6]))]
        keys = [key() for _ in range(R.randint(2, 9))]
        ks = keys + [k[:R.randint(0, len(k))] for k in keys] + [k + [R.choice(al)] for k in keys]
        es = []
        for _ in range(R.randint(1, 14)):
            x = R.random()
            es.append(["copy", 1, 2] if x < .06 else ["copy", 2, 1] if x < .1 else ["copy", 1, 1] if x < .13 else ["new", R.randint(1, 2)] if x < .17
                      else ["ins", R.randint(1, 2), R.choice(ks if R.random() < .5 else keys), R.randint(0, 9)])
        out.append({"o": "trie", "i": [es, R.sample(ks, min(len(ks), 10)) + [[]]]})
    for n in [200, 257, 300] * (1 if ctx.quick else 6):
        k = [R.choice(B("ab")) for _ in range(n)]
        ks = [k, k[:-1], k + [97], k[:128], k[:-1] + [k[-1] ^ 3]]
        out.append({"o": "trie", "i": [[["ins", 1, R.choice(ks), x] for x in range(4)] + [["copy", 1, 2], ["ins", 1, k, 9], ["ins", 2, ks[2], 8]], ks + [[]]]})
        al = list(range(256))
        R.shuffle(al)
        out.append({"o": "trie", "i": [[["ins", 1, [al[x]] + [al[x - 1]] * (x % 3), x % 10] for x in range(120)], [[al[x]] + [al[x - 1]] * (x % 3) for x in range(0, 120, 7)] + [[al[130]], [al[0], al[1]], []]]})
    return out


def canary(r):
    r["r"][-1][0][0][2] ^= 1
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["trie.cpp"])
        em = vlib.model_check(ctx, "MCTrie", CFG % ((2, "1, 2", 2) if q else (2, "1, 2", 3)))
        em += vlib.model_check(ctx, "MCTrie", CFG % (2, "1", 3)) if q else vlib.model_check(ctx, "MCTrie", CFG % (3, "1", 3))
        exe = hb.result()
    vlib.bind(ctx, exe, "TrieTrace", em, gen(ctx), canary)
