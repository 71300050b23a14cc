import vlib, concurrent.futures as cf
from vlib import B
from P14 import text
from P15 import edit, rng, BASE
from P07 import tok

ASSUMPTIONS = ["a column index equal to the number of columns may be answered either way as long as no cell is used",
               "in a range with rows too short for the column the count of accumulate_column may include those rows",
               "joining skips empty and rejected cells; a delimiter may remain after the last selected cell when the last cell was skipped",
               "sums stay within the range of int"]


def query(R, n, m):
    r = rng(R, n) if R.random() < .6 else [0, n]
    c = R.randint(0, m)
    return R.choice([
        ["col"] + r + [c], ["colint"] + r + [c], ["cols"] + r + [[R.randint(0, m - 1 if R.random() < .9 else m + 1) for _ in range(R.randint(1, 5))]],
        ["accrow", R.randint(0, n)], ["acccol"] + r + [c], ["acccolp"] + r + [c, R.choice([1, 2, 3, 4])],
        ["joinrow", R.randint(0, n), R.choice([B(","), B("--"), []])], ["joinrowp", R.randint(0, n), R.choice([B(","), B("--"), []]), R.choice([1, 2, 3, 4])],
        ["joincol"] + r + [c, R.choice([B(","), []])], ["joincolp"] + r + [c, R.choice([B("|"), []]), R.choice([1, 2, 3, 4])],
        ["part"] + r + [R.choice([0, 1, 2, 3, 4, 10, 11, 10, 11]), R.choice([-1, -1, -1, 0, 1, 2])],
        ["rows"] + r, ["width"] + r + [c], ["widths"], ["span"] + r, ["spanend", R.randint(0, n)]])


def gen(ctx):
    R = ctx.rng
    out = []
    for _ in range(1200 if ctx.quick else 20000):
        n = R.choice([0, 1, 2, 3, 6, 12])
        m = R.randint(1, 6)
        ints = R.random() < .6
        small = [B(str(R.randint(-999, 9999))) for _ in range(4)]
        t = text(R, n, m, [44], [10], small if ints else small + [B("a"), [], B("x9"), tok(R, 2)])
        es = [edit(R, n)] if R.random() < .25 else []
        if es and es[0][0] in ("reload", "reloadfile"):     # sums stay within the range of int
            es[0][1] = text(R, 2, 2, [44], [10], small + [B("a"), []]) or [97]
        out.append({"o": "grid", "i": [t] + BASE + [es + [query(R, n, m) for _ in range(R.randint(3, 8))]]})
    for _ in range(200 if ctx.quick else 3000):     # ragged grids, every position of every arity holding the largest index
        rows = [[R.choice([B("1"), B("22"), B("x"), B("-7")]) for _ in range(R.randint(1, 7))] for _ in range(R.randint(1, 5))]
        t = [c for r in rows for c in sum(([44] + x for x in r), [])[1:] + [10]]
        n = R.randint(2, 5)
        cs = R.sample(range(7), n)
        out.append({"o": "grid", "i": [t] + BASE + [[["cols", 0, len(rows), cs], ["cols", 0, len(rows), [min(c, 4) for c in cs]], ["cols"] + rng(R, len(rows)) + [cs[::-1]]]]})
    for n, m in [(300, 2), (3, 300), (60, 6)] * (1 if ctx.quick else 6):
        t = text(R, n, m, [44], [10], [B("1"), B("22"), B("-7"), B("305")])
        c = R.choice([m - 1, R.randrange(m)])
        out.append({"o": "grid", "i": [t] + BASE + [[["col", 0, n, c], ["colint", n // 2, n, c], ["cols", 0, n, [c, 0]], ["accrow", n - 1], ["acccol", 0, n, c], ["joinrow", n - 1, B("--")], ["joincol", 0, n, c, B(",")],
                                                    ["rows", 0, n], ["width", 0, n, c], ["span", 0, n], ["part", 0, n, R.choice([0, 1, 2]), -1]]]})
    for n in [1, 2, 3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 12)]:
        for _ in range(1 if n > 99 else 3):
            bad = R.random() < .3
            rows = [[R.choice([B("1"), B("22"), B("-7"), B("305")] + [B("x9")] * bad) for _ in range(R.randint(2, 4))] for _ in range(R.randint(1, 4))]
            for r in rows:
                r[0] = R.choice([B("1"), B("1"), B("22")])
            c = R.randint(0, min(map(len, rows)) - 1)
            t = [x for r in rows for x in sum(([44] + y for y in r), [])[1:] + [10]]
            if max(map(len, rows)) > c:
                out.append({"o": "grid_tallq", "i": [t] + BASE + [n, c]})
            out.append({"o": "grid_wideq", "i": [sum((y + [44] for y in rows[0]), [])] + BASE + [n, R.choice([B("17"), B("-5")])]})
    # cells of tens of thousands of bytes
    return out + vlib.stretched(R, out, {"grid": [(0,), (6, "*", "*")]}, 60 if ctx.quick else 900)


def canary(r):
    if r["o"] != "grid":
        return None
    x = r["r"][-1]
    if isinstance(x, list) and x and isinstance(x[0], int) and r["i"][6][-1][0] in ("rows",):
        x[0] += 1
        return r
    r["r"][0][1] += 1
    return r


CFG = "CONSTANTS CellSet <- %s\nMaxRows = %d\nMaxCols = %d\nRng = %d\nSPECIFICATION Spec\nINVARIANTS TextRoundTrip Covering ColumnsCover SumsAgree JoinSplits\n"


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["gridquery.cpp"])
        em = vlib.model_check(ctx, "MCGridQ", CFG % ("Cells2" if q else "Cells3", 2, 2, 2))
        if not q:
            em += vlib.model_check(ctx, "MCGridQ", CFG % ("Cells2", 3, 2, 3))
        exe = hb.result()
    for r in em:
        r.pop("exp")
        r["m"] = 1
    vlib.bind(ctx, exe, "GridTrace", [], em + gen(ctx), canary)
