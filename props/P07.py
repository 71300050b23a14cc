import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["element types int, string and unsigned short in rotation (other types: P03, P04)", "argument vectors follow the library's convention: N values after the program name, count N"]
CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nMaxVars = %d\nModes = {%s}\nSPECIFICATION Spec\n"
       "INVARIANTS ParseRight TailRight ContRight Exact InOrder\nPROPERTY Terminates\n")


def cfg(al, n, k, modes):
    return CFG % (",".join(map(str, al)), n, k, ",".join('"%s"' % m for m in modes))


def tok(R, ty):
    if ty == 1:
        return B(R.choice(["0", "7", "-1", "+5", "2147483647", "-2147483648", "00012", str(R.randint(-10**9, 10**9)), str(R.randint(0, 99))]))
    if ty == 0:
        return B(R.choice(["0", "7", "65535", "00009", str(R.randint(0, 60000))]))
    return [R.choice(B("abz09-") + [255, 128, 1]) for _ in range(R.randint(1, 4))]


def badtok(R, ty):
    if ty == 1:
        return B(R.choice(["x", "1x", "-", "+", "2147483648", "-2147483649", "99999999999", "1.5", "--1"]))
    if ty == 0:
        return B(R.choice(["x", "-1", "65536", "99999", "1.", "+"]))
    return tok(R, 2)


def row(R, n, dl, pbad=0.0):
    out = []
    if R.random() < .1:
        out += [R.choice(dl)]
    bad = R.randint(1, max(1, n)) if R.random() < pbad else 0
    for k in range(1, n + 1):
        out += badtok(R, k % 3) if k == bad else tok(R, k % 3)
        if k < n or R.random() < .2:
            out += [R.choice(dl) for _ in range(R.choice([1, 1, 1, 2, 4]))]
    return out


def join(ts, d):
    out = []
    for k, t in enumerate(ts):
        out += ([d] if k else []) + t
    return out


def good(k, salt=0):
    """the k-th value of a row, different for each position"""
    return B([str(60000 + 11 * k + salt), str(-1000 - 7 * k - salt), "w%d_" % k + chr(97 + k)][k % 3])


def core():
    """every arity: the exact row, every single bad value, one value short, one value more; one and two delimiters"""
    out = []
    for n in range(1, 17):
        vs = [good(k) for k in range(1, n + 1)]
        rows = [vs, vs[:-1], vs + [B("9")], [[]] + vs, vs + [[]]]
        rows += [vs[:k - 1] + [B("x!")] + vs[k:] for k in range(1, n + 1) if k % 3 != 2]
        for d in ([44], [59, 44]):
            for r in rows:
                out.append({"o": "parse", "i": [join(r, 44), d, n]})
            if n <= 12:
                ls = []
                for r in rows[:3] + rows[5:]:
                    ls += join(r, 44) + [10]
                out.append({"o": "parse_lines", "i": [ls, d, n, len(rows) - 1]})
            if n <= 11:
                for t in ([], [B("-5")], [B("4"), B("4"), B("-17")], [B("4"), B("q"), B("6")], [B("q")]):
                    for kd in ("seq", "set", "mset"):
                        out.append({"o": "parse_tail", "i": [join(vs + t, 44), d, n, kd]})
                for r in rows[5:]:
                    out.append({"o": "parse_tail", "i": [join(r + [B("8")], 44), d, n, ("seq", "set", "mset")[len(out) % 3]]})
        if n <= 9:
            for r in [vs, vs[:-1], vs + [B("9")]] + rows[5:]:
                out.append({"o": "parse_argv", "i": [[B("prog")] + r, n]})
    return out


def gen(ctx):
    R = ctx.rng
    out = core()
    for rep in range(12 if ctx.quick else 150):
        for n in range(1, 17):
            dl = R.choice([[44], B(",;"), B(" \t|"), [44], [255, 44], [0]])
            m = R.choice([n, n, n, n + 1, n + 3, n - 1, n])
            t = row(R, m, dl, .4)
            d = list(dl) + ([] if R.random() < .8 else [1])
            out.append({"o": "parse", "i": [t, d, n]})
            if n <= 11:
                tail = [b"".join([bytes(tok(R, 1)) if R.random() < .9 else b"q"]) for _ in range(R.randint(0, 5))]
                t2 = row(R, n, dl, .2)
                for x in tail:
                    t2 = t2 + [R.choice(dl)] + list(x)
                for kd in ("seq", "set", "mset"):
                    out.append({"o": "parse_tail", "i": [t2, d, n, kd]})
            if n <= 12:
                ls = []
                for _ in range(R.randint(0, 4)):
                    l = [c for c in row(R, R.choice([n, n, n + 1, n - 1, 0]), dl, .3) if c != 10]
                    ls += l + [10]
                if R.random() < .5 and ls:
                    ls = ls[:-1]
                out.append({"o": "parse_lines", "i": [ls, d if R.random() < .95 else [], n, 5]})
            if n <= 9:
                a = [B("prog")] + [[c for c in (tok(R, k % 3) if R.random() < .9 else badtok(R, k % 3)) if c] for k in range(1, R.choice([n, n, n, n - 1, n + 1]) + 1)]
                out.append({"o": "parse_argv", "i": [a, n]})
        a = [tok(R, 1) if R.random() < .85 else badtok(R, 1) for _ in range(R.randint(0, 8))]
        out.append({"o": "argv_seq", "i": [a, R.randint(0, 1)]})
    for n in (1, 2, 3):
        for t in ([], [44], [44, 44], B("1"), B("1,"), B(",1"), B("1,b,,3"), B("1,b,3,")):
            out.append({"o": "parse", "i": [t, [44], n]})
            out.append({"o": "parse", "i": [t, [], n]})
    # rows with hundreds of fields, and fields of hundreds of bytes
    for n in [1, 2, 5, 9, 11, 12, 16] * (1 if ctx.quick else 5):
        dl = R.choice([[44], B(",;")])
        for m in (260, 530):
            t = row(R, m, dl, .1)
            out.append({"o": "parse", "i": [t, dl, n]})
        long = [x for k in range(1, n + 1) for x in ([R.choice(dl)] * (270 if k == n else 1) + (B("x" * 1100) if k % 3 == 2 else B("0" * 300) + tok(R, k % 3) if k % 3 == 1 else tok(R, 0)))]
        out.append({"o": "parse", "i": [long, dl, n]})
        if n <= 11:
            t2 = row(R, n, dl, .2)
            for k in range(300):
                t2 = t2 + [R.choice(dl)] + tok(R, 1)
            for kd in ("seq", "set", "mset"):
                out.append({"o": "parse_tail", "i": [t2, dl, n, kd]})
            long = [c for c in long if c != 10]
            out.append({"o": "parse_lines", "i": [long + [10] + [c for c in row(R, n + 300, dl, .1) if c != 10] + [10] + long[1:], dl, n, 5]})
    # tokens of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"parse": [(0,)], "parse_argv": [(0, "*")], "argv_seq": [(0, "*")], "parse_lines": [(0,)], "parse_tail": [(0,)]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] == "parse":
        r["r"][0][0] = 1 - r["r"][0][0]
        return r
    return None


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["parse.cpp", "parsetail.cpp"])
        em = vlib.model_check(ctx, "MCParse", cfg(B("1x,") if q else B("1x, "), 5 if q else 6, 3, ["parse"]))
        em += vlib.model_check(ctx, "MCParse", cfg(B("1x,"), 5 if q else 7, 2, ["tail"]))
        exe = hb.result()
    vlib.bind(ctx, exe, "ParseTrace", em, gen(ctx), canary)
