import vlib, concurrent.futures as cf
from vlib import B

ASSUMPTIONS = ["a line visitor limited to n lines is given n > 0; directories are not used as files",
               "writing a file from itself (copy onto itself, concatenation into an operand) must leave the files as they were; its return value is open"]
CFG = "CONSTANTS Block = 2\nScale = %d\nDepth = %d\nSizes = {%s}\nMaxText = %d\nLineBytes = {%s}\nSPECIFICATION Spec\nINVARIANTS Atomic SourcesKept LinesRight\n"


def text(R):
    al = R.choice([B("a\n"), B("ab\n\n"), B("ab \r\n,\t"), list(range(256)), [10], B("\n\n\na")])
    return [R.choice(al) for _ in range(R.choice([0, 1, 2, 3, 5, 8, 13, 30]))]


def content(R):
    blk = 16384
    n = R.choice([0, 1, 2, 5, blk - 1, blk, blk + 1, 2 * blk - 1, 2 * blk, 2 * blk + 1, 3 * blk, 50000, R.randint(0, 70000)])
    out = []
    while n > 0:
        k = min(n, R.choice([1, 7, blk - 1, blk, 20000, n]))
        c = R.choice([0, 10, 13, 26, 65, 66, 255])
        if out and out[-1][0] == c:
            out[-1][1] += k
        else:
            out.append([c, k])
        n -= k
    return out


def altered(runs, pos):
    """the contents with the byte at pos changed"""
    out, at = [], 0
    def put(c, k):
        if k and out and out[-1][0] == c:
            out[-1][1] += k
        elif k:
            out.append([c, k])
    for c, k in runs:
        if at <= pos < at + k:
            put(c, pos - at)
            put((c + 1) % 256, 1)
            put(c, at + k - pos - 1)
        else:
            put(c, k)
        at += k
    return out


def gen(ctx):
    R = ctx.rng
    out = []
    q = ctx.quick
    for _ in range(250 if q else 5000):
        es = []
        last = content(R)
        for _ in range(R.randint(3, 12)):
            w = R.choice(["write"] * 4 + ["copy"] * 4 + ["cat"] * 3 + ["same", "same", "load", "size", "loadn", "at", "at", "exists", "rm"])
            a, b, c = R.randint(1, 4) if R.random() < .1 else R.randint(1, 3), R.randint(1, 4) if R.random() < .1 else R.randint(1, 3), R.randint(1, 4) if R.random() < .1 else R.randint(1, 3)
            if w == "write":
                if R.random() < .3:
                    last = [list(x) for x in last]
                    if last:
                        last[-1][0] = 67
                elif R.random() < .7:
                    last = content(R)
                es.append([w, a, [list(x) for x in last]])
            elif w in ("copy", "same"):
                es.append([w, a, b])
            elif w == "cat":
                es.append([w, a, b, c])
            elif w == "loadn":
                es.append([w, a, R.choice([0, 1, 5, 16384, 40000])])
            elif w == "at":
                es.append([w, a, R.choice([0, 0, 1, 5, 16384, 16383, 40000]), R.choice([1, 2, 100, 16384])])
            else:
                es.append([w, min(a, 3) if w == "rm" else a])
        out.append({"o": "files", "i": [es]})
    # two files that differ in exactly one byte, or only in their length
    for k in range(160 if q else 2500):
        c = content(R) if k % 2 else [[R.choice([0, 65, 255]), R.randint(1, 40)]]
        n = sum(x[1] for x in c)
        if n == 0:
            continue
        pos = R.choice([0, n - 1, n - 1, n // 2, n // 16384 * 16384, n // 16384 * 16384 - 1, n - 2, R.randrange(n)])
        d = altered(c, max(0, min(pos, n - 1))) if k % 5 else c + [[7, 1]]
        out.append({"o": "files", "i": [[["write", 1, c], ["write", 2, d], ["same", 1, 2], ["same", 2, 1], ["copy", 2, 3], ["same", 3, 2], ["same", 1, 3], ["load", 3]]]})
    for _ in range(300 if q else 6000):
        t = text(R)
        out.append({"o": "lines", "i": [t]})
        out.append({"o": "linesn", "i": [t, R.randint(1, 6)]})
        ls = bytes(t).split(b"\n")
        out.append({"o": "linesc", "i": [t, R.choice([0, 0, 1, 2, 3]), list(R.choice(ls))]})
        out.append({"o": "lineset", "i": [t]})
        out.append({"o": "wlines", "i": [[[R.choice(B("ab\n ")) for _ in range(R.randint(0, 4))] for _ in range(R.randint(0, 6))], R.choice([B("\n"), [], B(", "), B("\r\n")])]})
    for _ in range(40 if q else 600):
        out.append({"o": "lineints", "i": [[B(str(R.choice([0, -1, 7, R.randint(-2**31, 2**31 - 1), 2**31 - 1, -2**31]))) for _ in range(R.randint(0, 8))]]})
    for _ in range(6):
        out.append({"o": "lines", "i": [[97] * R.choice([1023, 1024, 1025, 3000]) + [10] + [98] * R.randint(0, 3)]})
    for n in [3, 65537 + R.randint(0, 3000)] + [R.choice([22000, 32768, 65536]) + R.randint(-2, 2) for _ in range(1 if q else 10)]:
        u = [R.choice(B("ab\n")) for _ in range(R.randint(0, 5))] + [10]
        out.append({"o": "lines_bulk", "i": [u, n, R.choice([n - 1, n, 65536, 65535, 3 * n])]})
    # files of gigabytes, almost all of it holes
    for hi in [0, 127, 128, 255, 256, 300] * (1 if q else 4):
        ms = [[h, lo, [R.randint(1, 255) for _ in range(R.randint(1, 6))]] for h, lo in sorted({(R.randint(0, hi), R.randint(0, 16777000)) for _ in range(3)} | {(hi, R.choice([0, 16777000, 16777210 - 6]))})]
        ms = [m for k, m in enumerate(ms) if k == 0 or m[:1] != ms[k - 1][:1] or m[1] > ms[k - 1][1] + 6]
        es = []
        for m in ms:
            es += [[m[0], max(0, m[1] - R.randint(0, 3)), R.randint(1, 6)], [m[0], m[1], len(m[2])], [m[0], m[1], len(m[2]) + 1]]
        es.append([hi + R.choice([0, 1, 256]), ms[-1][1] + len(ms[-1][2]), 1])
        out.append({"o": "huge", "i": [ms, es]})
    out += [{"o": "nofile", "i": [0]}, {"o": "nofile", "i": [1]}]
    return out


def canary(r):
    if r["o"] == "files":
        if not r["r"] or r["i"][0][-1][0] in ("copy", "cat"):
            return None
        r["r"][-1][2][0][0] ^= 1
    elif r["o"] in ("lines_bulk", "huge"):
        return None
    elif r["o"] in ("lines", "lineset"):
        r["r"].append([1])
    else:
        r["r"][1] = [[9]]
        if r["o"] in ("linesn", "linesc"):
            r["r"][1] = 77
        if r["o"] == "nofile":
            r["r"][1] = 1
    return r


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["files.cpp"])
        em = vlib.model_check(ctx, "MCFiles", CFG % ((8192, 3, "0, 1, 2, 3", 5, "97, 98, 10") if q else (8192, 4, "0, 1, 2, 3", 7, "97, 98, 10")))
        exe = hb.result()
    fl = [r for r in em if r["o"] == "files"]
    em = [r for r in em if r["o"] != "files"]
    if len(fl) > (1500 if q else 15000):
        fl = ctx.rng.sample(fl, 1500 if q else 15000)
    for r in fl:
        r.pop("exp")
        r["m"] = 1
    vlib.bind(ctx, exe, "FilesTrace", em, gen(ctx) + fl, canary)
