import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["elements are strings, integers and single characters (how other values are written: P05)", "a cut starts at or before its end", "sets of integers are exercised with integers whose written and numeric order agree"]
CFG = 'CONSTANTS PartBytes = {%s}\nMaxPart = %d\nMaxParts = %d\nDelims <- %s\nConds <- %s\nSPECIFICATION Spec\nINVARIANTS IsJoin LengthAdds Readable Out OutJoin\n'


def gen(ctx):
    R = ctx.rng
    out = []

    def text(n=6, al=None):
        al = al or B("abz ,") + [0, 255, 128]
        return [R.choice(al) for _ in range(R.randint(0, n))]

    def delim():
        return R.choice([[], [44], B(", "), [0], text(4)])

    def parts(n=None, k=6):
        return [text(k) for _ in range(R.randint(0, 7) if n is None else n)]
    for _ in range(500 if ctx.quick else 8000):
        n = R.randint(2, 12)
        ps = [text() if k % 2 == 0 else B(str(R.choice([0, -1, R.randint(-2**31, 2**31 - 1)]) if k % 6 != 5 else R.randint(0, 65535))) for k in range(n)]
        out.append({"o": "construct", "i": [text(), delim(), ps]})
        out.append({"o": "join", "i": [text(), delim(), parts()]})
        out.append({"o": "joini", "i": [text(), delim(), [B(str(R.randint(100, 999))) for _ in range(R.randint(0, 6))]]})
        out.append({"o": "join_if", "i": [text(), delim(), parts(), R.choice(["eq", "lt", "gt", "even", "odd"]), R.choice([0, 1, 2, 3, 4, 7])]})
        out.append({"o": "replicate", "i": [R.choice([0, 1, 2, 3, 17]), text(), text()]})
        out.append({"o": "bracketize", "i": [text(), delim(), delim(), parts()]})
        a = R.randint(0, 6)
        out.append({"o": "cut", "i": [a, a + R.choice([0, 1, 2, 9]), parts(k=10)]})
        t = [R.randint(0, 255) for _ in range(R.choice([0, 1, 5, 20, 256]))]
        u = [R.randint(0, 255) for _ in t] + ([1] if R.random() < .1 else [])
        s = [R.choice(t) if t and R.random() < .7 else R.randint(0, 255) for _ in range(R.randint(0, 20))]
        out.append({"o": "translate", "i": [t, u, s]})
        out.append({"o": "weave", "i": [R.choice([0, 1, 2, 3, 5, 30]), R.randint(0, 127), [R.randint(0, 127) for _ in range(R.randint(0, 20))]]})
        out.append({"o": "build", "i": [[B(str(R.randint(-2**31, 2**31 - 1))) if k % 3 == 1 else text(3) for k in range(R.randint(0, 7))]]})
    out.append({"o": "translate", "i": [list(range(256)), [(7 * c + 3) % 256 for c in range(256)], list(range(256))]})
    out.append({"o": "join", "i": [[], [44], [[97] * 700, [98] * 700]]})
    for n in [257, 300, 600, 1030] * (1 if ctx.quick else 5):
        long = [R.choice(B("ab, ") + [0, 255]) for _ in range(n)]
        many = [text(2) for _ in range(n)]
        out.append({"o": "construct", "i": [long, B(", "), [long, B("7"), long[1:], B("-12")]]})
        out.append({"o": "join", "i": [text(), R.choice([B(","), long]), parts(5)]})
        out.append({"o": "join", "i": [long, B(","), many]})
        out.append({"o": "joini", "i": [[], [44], [B(str(R.randint(100, 999))) for _ in range(n)]]})
        out.append({"o": "join_if", "i": [[], B(";"), many, R.choice(["lt", "gt", "even", "odd"]), 1]})
        out.append({"o": "replicate", "i": [R.choice([2, 3, 258]), text(), text()]})
        out.append({"o": "replicate", "i": [3, long, long[3:]]})
        out.append({"o": "bracketize", "i": [[], B("("), B(")"), many]})
        out.append({"o": "bracketize", "i": [[], long, B(")"), parts(3)]})
        out.append({"o": "cut", "i": [n // 2, n + R.choice([-1, 0, 3]), [long, long[2:], text()]]})
        out.append({"o": "translate", "i": [list(range(255, -1, -1)), [R.randint(0, 255) for _ in range(256)], long]})
        out.append({"o": "weave", "i": [R.choice([1, 7, 256, n - 1]), 45, [c & 127 for c in long]]})
        out.append({"o": "weave", "i": [R.choice([255, 256, 257, 300]), 45, [c & 127 for c in (long * 4)[:1100]]]})
    for n in [65537] if ctx.quick else [65536, 65538, 100002]:
        ps = [text(3) + [48] for _ in range(2)]
        out.append({"o": "join_bulk", "i": [text(), delim(), ps, n]})
        out.append({"o": "join_bulk", "i": [[], [], ps[:1], n]})
        out.append({"o": "join_if_bulk", "i": [text(), B(", "), ps + [B("abcd")], R.choice(["gt", "even", "odd"]), 2, n]})
        out.append({"o": "replicate_bulk", "i": [n, text(4) + [0], text()]})
        out.append({"o": "bracketize_bulk", "i": [text(), B("<"), B(">"), ps, n]})
        out.append({"o": "weave_bulk", "i": [R.choice([1, 2, 4]), 45, [R.randint(48, 99) for _ in range(4)], n]})
        out.append({"o": "weave_far", "i": [R.choice([65536, 65537, 70000]), 45, 2 * n + 9000]})
        out.append({"o": "build_bulk", "i": [[text(3), B("7"), [65]], n]})
        out.append({"o": "construct_bulk", "i": [text(), B(";"), text(3) + [0], n]})
        long = [(k * k) % 251 for k in range(n)]
        out.append({"o": "cut", "i": [n - 5, n + R.choice([-2, 0, 3]), [long, long[2:], text()]]})
        out.append({"o": "cut", "i": [3, 3 + 65536, [long]]})
        out.append({"o": "translate", "i": [list(range(255, -1, -1)), [R.randint(0, 255) for _ in range(256)], long]})
    return out


def canary(r):
    if r["o"] in ("construct", "join", "replicate", "build"):
        r["r"][0] = r["r"][0] + [120]
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["build.cpp"])
        em = vlib.model_check(ctx, "MCBuild", CFG % (("97, 44", 2, 3, "QDelims", "QConds") if q else ("97, 44", 2, 4, "QDelims", "QConds")))
        exe = hb.result()
    vlib.bind(ctx, exe, "BuildTrace", em, gen(ctx), canary)
